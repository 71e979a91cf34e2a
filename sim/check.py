"""Runs one property: seeded search, confirmation, minimisation, evidence."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import driver, gen
from .driver import VERIF, run_rng

HARD_WALL = {'quick': 780, 'thorough': 4 * 3600}


class HarnessError(Exception):
    pass


class Violation:
    def __init__(self, kind, detail, where=None):
        self.kind = kind          # class of violation, kept by minimisation
        self.detail = detail      # readable
        self.where = where

    def to_json(self):
        return {'kind': self.kind, 'detail': self.detail}


class Ctx:
    """what a property needs to evaluate a case"""

    def __init__(self, pool):
        self.pool = pool
        self.refs = driver.Refs(pool)
        self.faults = {}
        self.probes = {}
        self.lock = driver.threading.Lock()

    def note(self, table, what, n=1):
        if not n:
            return
        with self.lock:
            table[what] = table.get(what, 0) + n

    def fault(self, what, n=1):
        self.note(self.faults, what, n)

    def probe(self, what, n=1):
        self.note(self.probes, what, n)

    def session(self, steps, env=('0', '0'), texts=False, unwrap=False,
                **kw):
        job = {'steps': steps}
        if unwrap:
            job['unwrap'] = True
        if texts:
            job['texts'] = True
        res = self.pool.run(job, env, **kw)
        return self.unwrap(res)

    def job(self, job, env=('0', '0'), **kw):
        return self.unwrap(self.pool.run(job, env, **kw))

    def unwrap(self, res):
        if 'ok' in res:
            return res['ok']
        if res.get('crash') == 'wall-timeout':
            raise HarnessError('wall-timeout')
        if 'crash' in res:
            raise Crash(res['crash'])
        raise HarnessError(res.get('error', repr(res)))

    def ref(self, script, pre=(), env=('0', '0'), texts=False):
        res = self.refs.script(script, pre, env, texts)
        if 'out' in res:
            return res
        if 'crash' in res:
            raise Skipped('reference ' + res['crash'])
        raise HarnessError(res.get('error', repr(res)))

    def ref_session(self, steps, env=('0', '0'), texts=False, unwrap=False):
        job = {'steps': steps}
        if unwrap:
            job['unwrap'] = True
        if texts:
            job['texts'] = True
        res = self.refs.job(job, env)
        if 'ok' in res:
            return res['ok']
        if 'crash' in res:
            raise Skipped('reference ' + res['crash'])
        raise HarnessError(res.get('error', repr(res)))


class Crash(Exception):
    """the simulated process died (CPU limit, signal)"""


class Skipped(Exception):
    """the case is not usable (its reference does not terminate)"""


class Prop:
    id = None
    title = ''
    quick = 300
    thorough = 6000
    envs = [('0', '0')]
    rule = ''
    assumptions = []
    real = 'all of qnet, sympy 1.1.1, numpy, qutip, attrs, CPython 3.12'
    stub = 'none'
    sim_time = None

    def environments(self, seed, tier):
        """(hash seed, class hash salt) of the simulated processes"""
        return self.envs

    def gen(self, rng, i):
        raise NotImplementedError

    def evaluate(self, case, ctx, texts=False):
        """-> (list of Violation, info dict with keys sig, nontrivial)"""
        raise NotImplementedError

    def shrink(self, case):
        return shrink_steps(case)

    def scripts(self, case):
        """the client scripts of a case"""
        for st in case.get('steps', ()):
            yield from [st['s']] if 's' in st else st.get('bodies', ())

    def render(self, case):
        return render_steps(case.get('steps', []))

    def extra_evidence(self):
        return {}

    def fixed_cases(self):
        """cases evaluated in every run before the random ones"""
        return []


# --------------------------------------------------------------------------

def render_steps(steps, indent=''):
    from . import dsl
    lines = []
    for n, st in enumerate(steps):
        t = st['t']
        d = {k: v for k, v in st.items()
             if k not in ('s', 't', 'bodies')}
        lines.append('%sstep %d: %s %s' % (
            indent, n, t, json.dumps(d, sort_keys=True) if d else ''))
        if 's' in st:
            lines += [indent + '    ' + l for l in dsl.fmt_script(st['s'])]
        for i, b in enumerate(st.get('bodies', ())):
            lines.append('%s    thread %d:' % (indent, i))
            lines += [indent + '        ' + l for l in dsl.fmt_script(b)]
    return lines


def drop_ops_candidates(script):
    """smaller versions of a script"""
    n = len(script)
    if n > 3:
        for cut in (n // 2, 3 * n // 4):
            if 0 < cut < n:
                yield script[:cut]
    for i in reversed(range(n)):
        c = gen.drop_op(script, i)
        if c:
            yield c


def with_key(d, k, v):
    d = dict(d)
    d[k] = v
    return d


def shrink_steps(case):
    """generic candidates: fewer steps, shorter scripts"""
    steps = case['steps']
    n = len(steps)
    # chunks of steps
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            keep = steps[:a] + steps[a + size:]
            ids = {st.get('id') for st in steps[a:a + size]
                   if st['t'] in ('enter', 'exit')}
            keep = [st for st in keep
                    if not (st['t'] in ('enter', 'exit')
                            and st.get('id') in ids)]
            if keep:
                yield with_key(case, 'steps', keep)
        size //= 2
    for i, st in enumerate(steps):
        if 's' in st and len(st['s']) > 1:
            for c in drop_ops_candidates(st['s']):
                # keep repeats of the same script in step
                new = []
                for s2 in steps:
                    new.append(with_key(s2, 's', c)
                               if s2.get('s') == st['s'] else s2)
                yield with_key(case, 'steps', new)
                yield with_key(case, 'steps', steps[:i] + [
                    with_key(st, 's', c)] + steps[i + 1:])
        if 'bodies' in st:
            for j, b in enumerate(st['bodies']):
                for c in drop_ops_candidates(b):
                    nb = [c if x == b else x for x in st['bodies']]
                    yield with_key(case, 'steps', steps[:i] + [
                        with_key(st, 'bodies', nb)] + steps[i + 1:])
                    if len(b) > 1:
                        nb = list(st['bodies'])
                        nb[j] = c
                        yield with_key(case, 'steps', steps[:i] + [
                            with_key(st, 'bodies', nb)] + steps[i + 1:])
            for j in range(len(st.get('schedule', ()))):
                sch = st['schedule'][:j] + st['schedule'][j + 1:]
                yield with_key(case, 'steps', steps[:i] + [
                    with_key(st, 'schedule', sch)] + steps[i + 1:])
        if len(st.get('at', ())) > 1:
            for j in range(len(st['at'])):
                at = st['at'][:j] + st['at'][j + 1:]
                yield with_key(case, 'steps', steps[:i] + [
                    with_key(st, 'at', at)] + steps[i + 1:])
        if len(st.get('classes', ())) > 1:
            for j in range(len(st['classes'])):
                cl = st['classes'][:j] + st['classes'][j + 1:]
                yield with_key(case, 'steps', steps[:i] + [
                    with_key(st, 'classes', cl)] + steps[i + 1:])
        if len(st.get('kw', ())) > 1:
            for k in list(st['kw']):
                kw = {a: b for a, b in st['kw'].items() if a != k}
                yield with_key(case, 'steps', steps[:i] + [
                    with_key(st, 'kw', kw)] + steps[i + 1:])


def compare(ref, out, allow=()):
    """indices where the outcomes differ (allowed outcomes excluded)"""
    bad = []
    for i, (a, b) in enumerate(zip(ref, out)):
        if a != b and b not in allow:
            bad.append(i)
    if len(ref) != len(out):
        bad.append(min(len(ref), len(out)))
    return bad


def first_diff(ctx, script, ref, got, i, reftexts=None, gottexts=None):
    from . import dsl
    line = dsl.fmt_script(script)[i] if i < len(script) else '?'
    d = 'operation %s: reference %s, here %s' % (
        line, ref[i] if i < len(ref) else '-',
        got[i] if i < len(got) else '-')
    if reftexts and gottexts and i < len(reftexts) and i < len(gottexts):
        d += '\n   reference: %s\n   here:      %s' % (
            reftexts[i], gottexts[i])
    return d


# --------------------------------------------------------------------------

class Runner:
    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.pool = driver.Pool(envs=prop.environments(seed, tier))
        self.ctx = Ctx(self.pool)
        self.ex = ThreadPoolExecutor(self.pool.nworkers)
        self.t0 = time.monotonic()
        self.harness_errors = []
        self.unconfirmed = []
        self.skipped = 0
        self.crashes = 0

    def evaluate(self, case, texts=False):
        """violations of a case; crashes become violations of kind 'hang'"""
        try:
            return self.prop.evaluate(case, self.ctx, texts)
        except Crash as exc:
            # a script that does not finish quickly when it runs alone
            # decides nothing
            for s in self.prop.scripts(case):
                res = self.pool.run({'steps': [{'t': 'script', 's': s}]},
                                    self.prop.envs[0], cpu=1)
                if 'crash' in res:
                    raise Skipped('a script takes too long alone')
            self.crashes += 1
            return [Violation('process-died', 'the simulated process died: %s '
                              '(every script alone finishes)' % exc)], {}

    def one(self, i):
        prop = self.prop
        fixed = self.fixed
        if i < len(fixed):
            case = fixed[i]
        else:
            case = prop.gen(run_rng(prop.id, self.seed, i), i)
        try:
            vs, info = self.evaluate(case)
        except Skipped as exc:
            self.skipped += 1
            return i, case, [], {'skipped': str(exc)}
        except HarnessError as exc:
            self.harness_errors.append((i, str(exc)))
            return i, case, [], {'harness_error': True}
        return i, case, vs, info

    def same(self, case, kinds, texts=False):
        try:
            vs, _ = self.evaluate(case, texts)
        except Exception:
            return None
        for v in vs:
            if v.kind in kinds:
                return v
        return None

    def minimise(self, case, kinds, budget_s=150, budget_n=1500):
        t0 = time.monotonic()
        n = 0
        improved = True
        while improved and time.monotonic() - t0 < budget_s and n < budget_n:
            improved = False
            batch = []
            cands = self.prop.shrink(case)
            done = False
            while not done:
                batch = []
                for c in cands:
                    batch.append(c)
                    if len(batch) >= self.pool.nworkers:
                        break
                if not batch:
                    break
                n += len(batch)
                res = list(self.ex.map(lambda c: self.same(c, kinds), batch))
                for c, v in zip(batch, res):
                    if v is not None:
                        case = c
                        improved = True
                        done = True
                        break
                if time.monotonic() - t0 > budget_s or n > budget_n:
                    done = True
        return case, n

    def run(self):
        prop = self.prop
        n = getattr(prop, self.tier)
        scale = float(os.environ.get('SIM_SCALE', '1'))
        self.fixed = list(prop.fixed_cases())
        n = len(self.fixed) + max(1, int(n * scale))
        known = load_known(prop.id)
        sigs = set()
        samples = []
        evaluated = nontrivial = 0
        violations = []
        known_hit = {}
        hard = HARD_WALL[self.tier]
        stop = False
        timed_out = False
        i = 0
        pending = []
        it = iter(range(n))
        window = self.pool.nworkers * 4
        order = {}
        results_iter = self._stream(it, window)
        for i, case, vs, info in results_iter:
            if 'skipped' in info or 'harness_error' in info:
                if len(self.harness_errors) > 20:
                    break
                continue
            evaluated += 1
            if info.get('nontrivial'):
                sig = info.get('sig')
                if sig not in sigs:
                    sigs.add(sig)
                    nontrivial += 1
            if len(samples) < 2 and info.get('nontrivial'):
                samples.append('\n'.join(prop.render(case))[:3000])
            if vs:
                case = info.get('resolved', case)
                out = self.handle(i, case, vs, known, known_hit)
                if out is not None:
                    violations.append(out)
                    break
            if time.monotonic() - self.t0 > hard:
                timed_out = True
                break
        wall = time.monotonic() - self.t0
        self.write_evidence(evaluated, nontrivial, len(sigs), samples, wall,
                            violations, known_hit, timed_out)
        for kf in known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (prop.id, kf))
        self.pool.close()
        if violations:
            return 1
        if self.harness_errors:
            print('HARNESS-ERROR %s: %d case(s), first: %s' % (
                prop.id, len(self.harness_errors), self.harness_errors[0]))
            return 2
        if timed_out:
            print('INCOMPLETE %s: wall limit after %d of %d cases' % (
                prop.id, evaluated, n))
            return 2
        if self.unconfirmed:
            print('note: %d unconfirmed observation(s): %s' % (
                len(self.unconfirmed), self.unconfirmed[0]))
        print('%s: %d simulated runs, %d distinct non-trivial, no violation '
              '(%.1f s)' % (prop.id, evaluated, nontrivial, wall))
        return 0

    def _stream(self, it, window):
        """evaluate cases in parallel, yield the results in order"""
        futs = []
        for i in it:
            futs.append(self.ex.submit(self.one, i))
            if len(futs) >= window:
                yield futs.pop(0).result()
        while futs:
            yield futs.pop(0).result()

    def handle(self, i, case, vs, known, known_hit):
        """confirm, minimise, re-verify; -> replay path or None"""
        kinds = {v.kind for v in vs}
        if self.same(case, kinds) is None:
            if self.same(case, kinds) is None:
                self.unconfirmed.append([i, [v.to_json() for v in vs][:2]])
                return None
        v = vs[0]
        small, tried = self.minimise(case, {v.kind})
        texts_v = self.same(small, {v.kind}, texts=True)
        if texts_v is None:
            small, tried = case, 0
            texts_v = self.same(small, {v.kind}, texts=True) or v
        text = '\n'.join(self.prop.render(small)) + '\n' + texts_v.detail
        for kf in known:
            if kf_matches(kf, texts_v, text, small):
                known_hit[kf['id']] = kf['what']
                return None
        rep = {
            'property': self.prop.id, 'seed': self.seed, 'run': i,
            'kind': texts_v.kind, 'case': small,
            'readable': text.split('\n'), 'minimise_runs': tried,
        }
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (self.prop.id, self.seed, i))
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
            f.write('\n')
        print('\n'.join(text.split('\n')[:80])[:6000])
        print('VIOLATION property=%s replay=%s' % (
            self.prop.id, os.path.relpath(path, VERIF)))
        sys.stdout.flush()
        return path

    def write_evidence(self, evaluated, nontrivial, states, samples, wall,
                       violations, known_hit, timed_out):
        prop = self.prop
        cov = {
            'evaluations': evaluated,
            'distinct_nontrivial': nontrivial,
            'rule': prop.rule,
            'samples': samples or ['(none)'],
            'simulated_processes': self.pool.sessions,
            'runs_per_hour': int(evaluated / max(wall, .01) * 3600),
            'seeds_per_hour': int(evaluated / max(wall, .01) * 3600),
            'simulated_time': prop.sim_time or
            'no clock is read by the code this property covers; simulated '
            'progress is counted in operations and switch/fault points',
            'faults_injected': dict(sorted(self.ctx.faults.items())),
            'probes': dict(sorted(self.ctx.probes.items())),
            'distinct_states': states,
            'components_real': prop.real, 'components_stub': prop.stub,
            'workers': self.pool.nworkers,
            'environments': sorted(list(e) for e in self.pool.free),
            'skipped_cases': self.skipped,
            'crashed_processes': self.crashes,
            'unconfirmed': len(self.unconfirmed),
            'known_findings_seen': sorted(known_hit),
            'timed_out': timed_out,
        }
        cov.update(prop.extra_evidence())
        ev = {
            'property': prop.id, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration', 'coverage': cov,
            'assumptions': prop.assumptions,
            'wall_s': round(wall, 2), 'violations': len(violations),
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % prop.id)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(tmp, os.path.join(d, prop.id + '.json'))


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', [])
            if k['property'] == pid]


def kf_matches(kf, v, text, case):
    """a listed finding is identified by the minimised failing history"""
    if v.kind not in kf['kinds']:
        return False
    if 'case_digest' in kf:
        return driver.digest(case) == kf['case_digest']
    return all(s in text for s in kf['contains'])


def load_prop(pid):
    mod = importlib.import_module('sim.props.' + pid.lower())
    return mod.PROP()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--tier')
    ap.add_argument('--seed', type=int)
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = a.seed if a.seed is not None else \
            int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    prop = load_prop(a.property)
    print('%s seed=%d tier=%s' % (prop.id, seed, tier))
    sys.stdout.flush()
    r = Runner(prop, seed, tier)
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            v = r.same(rep['case'], {rep['kind']}, texts=True)
            if v is None:
                print('replay: not reproduced')
                code = 0
            else:
                print('\n'.join(prop.render(rep['case'])))
                print(v.detail)
                print('VIOLATION property=%s replay=%s' % (
                    prop.id, a.replay))
                code = 1
            r.pool.close()
        else:
            code = r.run()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    # the properties import this module under its real name
    importlib.import_module('sim.check').main()
