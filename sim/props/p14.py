import copy

from .common import *
from .. import config, inisim


def harmless(rng):
    """short reads and small buffers"""
    p = {}
    if rng.random() < 0.5:
        p['chunk'] = rng.choice([1, 3, 16, 100])
    if rng.random() < 0.3:
        p['buffer'] = rng.choice([1, 16, 64])
    return p


def data_of(st):
    return None if st['data'] is None else st['data'].encode('latin-1')


class PROP(Prop):
    id = 'P14'
    quick = 1500
    thorough = 30000
    rule = ('A run is one process in which configuration files (valid, '
            'invalid, torn, with any spelling of the same content) are loaded '
            'from a simulated disk, globally or as a scope, mixed with direct '
            'configurations and printing; opening, reading or closing may '
            'fail and reads may be short. A load must have exactly the '
            'effect of the equivalent direct configuration, or raise and '
            'have none; a reset load must give what it gives in a pristine '
            'process. Non-trivial: a file was rejected, or loaded under '
            'faults or after another configuration.')
    assumptions = ['an INI file is UTF-8 text; continuation lines are not '
                   'generated']

    def gen(self, rng, i):
        # (sympy's printing of its own objects is sympy's business)
        scripts = [without(config.probe(rng, 4), 'h.sympy_print')
                   for _ in range(2)]
        steps, stack, nid = [], [], 0
        old = inisim.gen_file(rng)
        for _ in range(rng.choice([1, 2, 3, 5])):
            z = rng.random()
            if z < 0.2:
                steps.append({'t': 'init_printing', 'kw': config.good(rng)})
            elif z < 0.3 and stack:
                steps.append({'t': 'exit', 'id': stack.pop()})
            else:
                new = inisim.gen_file(rng)
                plan = harmless(rng)
                y = rng.random()
                data = new
                if y < 0.3:
                    plan.update(at=rng.choice(['open', 'read', 'read',
                                               'close']),
                                errno=rng.choice(inisim.ERRNO))
                    if plan['at'] == 'read':
                        plan['pos'] = rng.choice(
                            [0, 1, rng.random(), rng.random()])
                elif y < 0.55:
                    data = inisim.gen_torn(rng, old, new)
                elif y < 0.6:
                    data = None
                elif y < 0.65:
                    data = b''
                old = new
                st = {'t': 'ini', 'plan': plan, 'kw': {},
                      'data': None if data is None else
                      data.decode('latin-1')}
                if not inisim.sure(data or b''):
                    continue
                if rng.random() < 0.4:
                    st['kw']['reset'] = True
                if rng.random() < 0.2:
                    st['kw']['init_sympy'] = False
                if rng.random() < 0.15:
                    st['path'] = 'pathlib'
                if rng.random() < 0.35:
                    nid += 1
                    stack.append(nid)
                    st['scope'] = nid
                steps.append(st)
            if rng.random() < 0.7:
                steps.append({'t': 'script', 's': rng.choice(scripts)})
        while stack and rng.random() < 0.7:
            steps.append({'t': 'exit', 'id': stack.pop()})
        steps.append({'t': 'script', 's': rng.choice(scripts)})
        return {'steps': steps}

    def shrink(self, case):
        yield from super().shrink(case)
        steps = case['steps']
        for k, st in enumerate(steps):
            if st['t'] != 'ini' or not st['data']:
                continue
            lines = st['data'].split('\n')
            for n in range(len(lines)):
                d = '\n'.join(lines[:n] + lines[n + 1:])
                if inisim.sure(d.encode('latin-1')):
                    yield dict(case, steps=steps[:k] + [dict(st, data=d)]
                               + steps[k + 1:])
            if set(st['plan']) - {'at', 'errno', 'pos'}:
                yield dict(case, steps=steps[:k] + [dict(
                    st, plan={a: b for a, b in st['plan'].items()
                              if a in ('at', 'errno', 'pos')})]
                    + steps[k + 1:])

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps, texts=texts)['steps']
        vs, ref, where, n = [], [], [], 0
        before = False
        for k, (st, got) in enumerate(zip(steps, res)):
            if st['t'] != 'ini':
                ref.append(st)
                before |= st['t'] == 'init_printing'
                continue
            kw = inisim.meaning(data_of(st)) if st['data'] is not None \
                else None
            ok = got['ini'] == 'ok'
            fired = got['fired'] > 0
            if fired:
                ctx.fault('disk_' + st['plan']['at'])
            elif st['plan']:
                ctx.fault('short_reads')
            if kw is None:
                ctx.fault('missing_file' if st['data'] is None else
                          'bad_file')
            n += fired or kw is None or before
            before = True
            if kw is None and ok:
                vs.append(Violation('accepted', (
                    'step %d: a file that %s was loaded without an error' % (
                        k, 'does not exist' if st['data'] is None
                        else 'is invalid'))))
                return vs, {'sig': digest([res, steps]), 'nontrivial': True}
            if kw is None or (fired and not ok):
                ref.append({'t': 'gc'})     # nothing
            else:
                d = {'t': 'direct', 'kw': dict(kw, **st['kw'])}
                if 'scope' in st:
                    d['scope'] = st['scope']
                ref.append(d)
        want = ctx.ref_session(ref, texts=texts)['steps']
        for k, (st, got, w) in enumerate(zip(steps, res, want)):
            if ref[k]['t'] != 'direct' or w['ini'] == got['ini']:
                continue
            if (w['ini'] == 'ok') != (got['ini'] == 'ok'):
                vs.append(Violation('verdict', (
                    'step %d: the file is %s, but the same configuration, '
                    'given directly, is %s' % (
                        k, *['accepted' if x['ini'] == 'ok' else
                             'rejected (%s)' % x['ini']
                             for x in (got, w)]))))
                return vs, {'sig': digest([res, steps]), 'nontrivial': True}
        if any(r['t'] == 'direct' and w['ini'] != 'ok'
               for r, w in zip(ref, want)):
            ctx.fault('rejected_content')
            n += 1
            ref = [{'t': 'gc'} if r['t'] == 'direct' and w['ini'] != 'ok'
                   else r for r, w in zip(ref, want)]
            want = ctx.ref_session(ref, texts=texts)['steps']
        self.judge(ctx, steps, res, want, range(len(steps)), vs, texts,
                   'file')
        if not vs:
            self.resets(ctx, steps, ref, res, vs, texts)
        return vs, {'sig': digest([res, steps]), 'nontrivial': n > 0}

    def judge(self, ctx, steps, res, want, nums, vs, texts, kind):
        for k in nums:
            st = steps[k]
            if st['t'] == 'script' and not vs:
                check_script(ctx, st, res[k], want[k - nums[0]], kind, vs,
                             texts, st['s'], 'step %d, ' % k)
            elif st['t'] == 'exit' and res[k] != want[k - nums[0]]:
                vs.append(Violation(kind, 'step %d: leaving the scope: %s, '
                                    'reference %s' % (
                                        k, res[k], want[k - nums[0]])))

    def resets(self, ctx, steps, ref, res, vs, texts):
        """what follows a reset load is that of a pristine process"""
        for k, r in enumerate(ref):
            if r['t'] != 'direct' or not r['kw'].get('reset') or \
                    r['kw'].get('init_sympy') is False or k == 0:
                continue
            end = k + 1
            while end < len(ref) and not (
                    ref[end]['t'] == 'exit' and ref[end]['id'] not in [
                        x.get('scope') for x in ref[k + 1:end]]):
                end += 1
            want = ctx.ref_session(ref[k:end], texts=texts)['steps']
            ctx.probe('reset_loads')
            self.judge(ctx, steps, res, want, range(k, end), vs, texts,
                       'reset')
            if vs:
                return
