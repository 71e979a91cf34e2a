"""Child-side executor: one forked child = one simulated process.

A job is a *session*: a list of steps executed in order in one process.  Every
step yields one outcome (JSON).  All steps are deterministic functions of the
job; the only randomness is in the generators on the driver side.
"""
import copy
import gc
import io
import itertools
import json
import logging
import os
import pickle
import sys

import numpy as np

from . import dsl, hashes, monitor, sched, singles

INTERP = None
#: a result which the client itself has overwritten
GONE = dsl.Skip()
BASE_FPS = None

EXC = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'RecursionError': RecursionError,
    'ValueError': ValueError,
    'OSError': OSError,
    'SystemExit': SystemExit,
    'GeneratorExit': GeneratorExit,
}

def shared_ops(st):
    """number of leading operations executed before the threads start"""
    n = st.get('shared', 0)
    for b in st['bodies'][1:]:
        while n and b[:n] != st['bodies'][0][:n]:
            n -= 1
    return min(n, min(len(b) for b in st['bodies']))


class Handover:
    """While the library enters or leaves a scope, or (re-)configures the
    printing system, no fault is injected: an asynchronous exception at such a
    moment cannot be handled by any implementation in pure Python.  `depth` is
    the number of such calls in progress."""

    def __init__(self):
        self.depth = 0
        self.undo = []

    def wrap(self, owner, name):
        fn = getattr(owner, name)

        def call(*args, **kwargs):
            self.depth += 1
            try:
                return fn(*args, **kwargs)
            finally:
                self.depth -= 1
        self.undo.append((owner, name, fn))
        setattr(owner, name, call)

    def start(self):
        import contextlib
        import qnet
        import qnet.printing
        cm = contextlib._GeneratorContextManager
        todo = [cm]
        for mod in list(sys.modules.values()):
            if not getattr(mod, '__name__', '').startswith('qnet'):
                continue
            for c in list(vars(mod).values()):
                if isinstance(c, type) and '__enter__' in c.__dict__ \
                        and c not in todo \
                        and c.__module__.startswith('qnet'):
                    todo.append(c)
        for c in todo:
            self.wrap(c, '__enter__')
            self.wrap(c, '__exit__')
        self.wrap(qnet.printing, 'init_printing')
        self.wrap(qnet, 'init_printing')

    def stop(self):
        for owner, name, fn in reversed(self.undo):
            setattr(owner, name, fn)
        self.undo = []


def prepare():
    """executed once in the zygote, before any fork"""
    global INTERP
    INTERP = dsl.Interp()
    from . import cbsim
    singles.prepare()
    extend_table(INTERP.table)
    singles.extend_table(INTERP.table)
    cbsim.extend_table(INTERP.table)
    monitor.qnet_codes()
    monitor.sympy_printing_codes()
    logging.getLogger('QNET.create').addHandler(logging.NullHandler())
    logging.getLogger('QNET.create').propagate = False


def resolve_class(name):
    import qnet
    from qnet.algebra.core import abstract_algebra, scalar_algebra
    if name == 'Expression':
        return abstract_algebra.Expression
    if name == 'Operation':
        return abstract_algebra.Operation
    if hasattr(qnet, name):
        return getattr(qnet, name)
    from qnet.algebra.core import (
        operator_algebra, state_algebra, super_operator_algebra,
        circuit_algebra, hilbert_space_algebra, algebraic_properties,
        abstract_quantum_algebra, indexed_operations)
    for m in (operator_algebra, state_algebra, super_operator_algebra,
              circuit_algebra, hilbert_space_algebra, scalar_algebra,
              abstract_quantum_algebra, indexed_operations):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def extend_table(table):
    def rules(cls):
        c = resolve_class(cls)
        res = []
        for attr in ('_rules', '_binary_rules'):
            if hasattr(c, attr):
                res.append([attr, list(getattr(c, attr).keys())])
        return res

    def simplifications(cls):
        return [getattr(s, '__name__', '?')
                for s in resolve_class(cls).simplifications]
    def show_rules(cls):
        buf = io.StringIO()
        old, sys.stdout = sys.stdout, buf
        try:
            resolve_class(cls).show_rules()
        finally:
            sys.stdout = old
        return buf.getvalue()
    table['h.show_rules'] = show_rules
    table['h.rules'] = rules
    table['h.simplifications'] = simplifications


class Session:
    def __init__(self, job):
        self.job = job
        self.texts = bool(job.get('texts'))
        self.scripts = {}       # label -> (script, vals, outs)
        self.cms = {}
        self.events = None
        self.fired = {}
        self.stats = {}
        self.hashes = {}
        self.given = []         # containers handed to the library
        self.keeping = any(st['t'] in ('hashes', 'relations')
                           for st in job['steps'])
        self.kept = []
        self.crossed = {}
        if any(st['t'] == 'cross' for st in job['steps']):
            # what belongs to the library itself
            from qnet.algebra.core.abstract_algebra import Expression
            self.constants = {
                id(o) for n, m in list(sys.modules.items())
                if n.split('.')[0] == 'qnet' and m is not None
                for o in _within([v for v in vars(m).values()
                                  if isinstance(v, Expression)]).values()}

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    # -- scripts ---------------------------------------------------------
    def script(self, st, catch=Exception, step=None):
        fp = dsl.FP()
        texts = [] if self.texts else None
        vals = []
        if st.get('capture'):
            INTERP.capture = []
        out = dsl.run_script(INTERP, fp, st['s'], vals, texts, step, catch)
        if st.get('capture'):
            cap, INTERP.capture = INTERP.capture, None
            self.given += [c for c, _ in cap]
        if self.keeping:
            self.kept.extend(vals)
        if 'label' in st:
            self.scripts[st['label']] = (st['s'], vals, out)
            if st.get('hashes'):
                self.hashes[st['label']] = [_hash(v) for v in vals]
        self.count('ops', len(out))
        r = {'out': out}
        if st.get('capture'):
            r['inputs_changed'] = [
                dsl.FP().text(c) for c, d in cap if dsl.FP().digest(c) != d]
        if texts is not None:
            r['texts'] = texts
        if st.get('singles'):
            r['singles'] = _singles(st['s'], vals, catch is not Exception)
        return r

    def do_script(self, st):
        return self.script(st)

    def do_hashes(self, st):
        return hashes.check(self.kept)

    def do_relations(self, st):
        return hashes.relations(self.kept, st['seed'])

    def do_recheck(self, st):
        """fingerprint again everything a labelled script produced"""
        s, vals, out = self.scripts[st['label']]
        fp = dsl.FP()
        now = []
        texts = []
        for v, o in zip(vals, out):
            if v is GONE:
                now.append('gone')
                texts.append('')
                continue
            if isinstance(v, dsl.Skip) or o.startswith(('!', '?', 'skip')):
                now.append(o)
                if self.texts:
                    texts.append('')
                continue
            try:
                now.append(fp.digest(v))
            except Exception as exc:
                now.append('?fp:' + type(exc).__name__)
            if self.texts:
                try:
                    texts.append(fp.text(v))
                except Exception as exc:
                    texts.append('?' + type(exc).__name__)
        r = {'out': now}
        if st['label'] in self.hashes:
            r['hash_changed'] = [
                i for i, (v, h) in enumerate(zip(
                    vals, self.hashes[st['label']]))
                if v is not GONE and _hash(v) != h]
        if self.texts:
            r['texts'] = texts
        return r

    def do_vandalise(self, st):
        """the client modifies every mutable object it handed to or got from
        the library"""
        n = 0
        for c in self.given:
            n += _vandalise(c)
        self.given = []
        for label in st['labels']:
            if label not in self.scripts:
                continue
            s, vals, out = self.scripts[label]
            for i, v in enumerate(vals):
                if isinstance(v, dsl.Skip):
                    continue
                if _vandalise(v):
                    vals[i] = GONE
                    n += 1
                    continue
                for name in _public_data(v):
                    try:
                        x = getattr(v, name)
                    except Exception:
                        continue
                    n += _vandalise(x)
        self.count('vandalised', n)
        return {'vandalised': n}

    def do_again(self, st):
        """run a script again: is each result the object of the first run?"""
        if st['label'] not in self.scripts:
            return {'same': []}
        s, vals, out = self.scripts[st['label']]
        new = []
        dsl.run_script(INTERP, dsl.FP(), st['s'], new)
        from qnet.algebra.core.abstract_algebra import Expression
        res = []
        for a, b in zip(vals, new):
            if not isinstance(b, Expression):
                res.append('-')
            else:
                res.append('the same' if a is b else 'a new')
        return {'same': res}

    def do_cross(self, st):
        """objects derived from the same (kept) values in two calls of this
        step which were not part of those values before"""
        if st['label'] not in self.scripts:
            return {'same': []}
        from qnet.algebra.core.abstract_algebra import Expression
        from qnet.utils.singleton import Singleton
        vals = self.scripts[st['label']][1]
        old = self.crossed.get(st['label'])
        if old is None:
            known = _within(vals)
        new = {i: _derive(v) for i, v in enumerate(vals)
               if isinstance(v, Expression)}
        if old is None:
            self.crossed[st['label']] = (known, new)
            return {'same': []}
        known, first = old
        res = []
        for i, d in new.items():
            for name, xs in d.items():
                for a, b in zip(first[i].get(name, ()), xs):
                    if a is b and id(a) not in known and \
                            not isinstance(type(a), Singleton) and \
                            id(a) not in self.constants:
                        res.append([i, name])
        return {'same': res, 'n': sum(map(len, new.values()))}

    # -- scoped configuration --------------------------------------------
    def make_cm(self, st):
        import qnet
        cm = st['cm']
        if cm == 'nocache':
            return qnet.no_instance_caching()
        classes = [resolve_class(c) for c in st.get('classes', ())]
        if cm == 'cache':
            return qnet.temporary_instance_cache(*classes)
        if cm == 'rules':
            return qnet.temporary_rules(*classes,
                                        clear=bool(st.get('clear')))
        if cm == 'printing':
            return qnet.configure_printing(**copy.deepcopy(st.get('kw', {})))
        raise KeyError(cm)

    def do_enter(self, st):
        try:
            cm = self.make_cm(st)
            cm.__enter__()
        except Exception as exc:
            return {'enter': '!' + type(exc).__name__}
        self.cms[st['id']] = cm
        self.count('scopes')
        return {'enter': 'ok'}

    def do_exit(self, st):
        cm = self.cms.pop(st['id'], None)
        if cm is None:
            return {'exit': 'none'}
        exc = st.get('exc')
        if exc is None:
            try:
                cm.__exit__(None, None, None)
            except Exception as e:
                return {'exit': '!' + type(e).__name__}
            return {'exit': 'ok'}
        self.count('scope_exit_by_' + exc)
        try:
            try:
                raise EXC[exc]('injected')
            except BaseException as e:
                swallowed = cm.__exit__(type(e), e, e.__traceback__)
        except BaseException as e:
            return {'exit': 'raised ' + type(e).__name__}
        return {'exit': 'swallowed' if swallowed else 'ok'}

    def do_init_printing(self, st):
        import qnet
        try:
            qnet.init_printing(**copy.deepcopy(st.get('kw', {})))
        except Exception as exc:
            return {'init': '!' + type(exc).__name__}
        return {'init': 'ok'}

    def do_init_algebra(self, st):
        import qnet
        if not hasattr(qnet, 'CavitySpace'):
            qnet.CavitySpace = type(
                'CavitySpace', (qnet.LocalSpace,), {'__doc__': 'client'})
        try:
            qnet.init_algebra(default_hs_cls=st['cls'])
        except Exception as exc:
            return {'init': '!' + type(exc).__name__}
        return {'init': 'ok'}

    def do_log(self, st):
        from qnet.algebra.core import abstract_algebra, algebraic_properties
        on = bool(st.get('on'))
        for mod in (abstract_algebra, algebraic_properties):
            if hasattr(mod, 'LOG'):
                mod.LOG = on
            if hasattr(mod, 'LOG_NO_MATCH'):
                mod.LOG_NO_MATCH = on and bool(st.get('nomatch'))
        logging.getLogger('QNET.create').setLevel(
            logging.DEBUG if on else logging.WARNING)
        lg = logging.getLogger('QNET.create')
        if on and not any(isinstance(h, _Render) for h in lg.handlers):
            lg.addHandler(_Render())
        return {'log': on}

    def do_gc(self, st):
        gc.collect()
        return {'gc': True}

    def do_rule(self, st):
        """add/delete rewriting rules of a class"""
        c = resolve_class(st['cls'])
        try:
            if st['op'] == 'add':
                pat, repl = user_rule(st['rule'])
                c.add_rule(st['name'], pat, repl)
            elif st['op'] == 'own':
                # (reference processes only) give the class its own tables
                c.simplifications = list(c.simplifications)
                for attr in ('_rules', '_binary_rules'):
                    if hasattr(c, attr):
                        d = getattr(c, attr).copy()
                        if st.get('clear'):
                            d.clear()
                        setattr(c, attr, d)
                # nothing created while the library was imported survives
                from qnet.algebra.core.abstract_algebra import Expression
                todo = [Expression]
                while todo:
                    x = todo.pop()
                    todo += x.__subclasses__()
                    if '_instances' in x.__dict__:
                        x._instances = {}
            elif st['op'] == 'del':
                c.del_rules(*st['names'])
            elif st['op'] == 'clear':
                c.del_rules()
            elif st['op'] == 'simp':
                # user-defined simplification, appended in place
                c.simplifications.append(user_simplification(st['rule']))
            elif st['op'] == 'simp_set':
                c.simplifications = [
                    x for x in c.simplifications
                    if x.__name__ not in st['names']]
        except Exception as exc:
            return {'rule': '!' + type(exc).__name__}
        return {'rule': 'ok'}

    # -- faults ----------------------------------------------------------
    def observed(self, hit, fn):
        """fn() with hit(kind, code, position) at every point"""
        gate = INTERP
        mon = sys.monitoring

        def at(kind, code, pos):
            if gate.active and not guard.depth:
                hit(kind, code, pos)
        guard = Handover()
        guard.start()
        ev = monitor.Events()
        ev.start({
            mon.events.PY_START: lambda c, o: at('S', c, 0),
            mon.events.LINE: lambda c, l: at('L', c, l),
            mon.events.PY_RETURN: lambda c, o, r: at('R', c, 0)})
        try:
            return fn()
        finally:
            ev.stop()
            guard.stop()

    def count_points(self, fn):
        """the fault points that fn() reaches, per location"""
        table = sched.Locations()
        total = [0]

        def hit(kind, code, pos):
            table.add((kind, code.co_filename[14:], code.co_name, pos),
                      total[0], code)
            total[0] += 1
        self.observed(hit, fn)
        return table.rows()

    def faulted(self, st, fn):
        """fn() with exceptions injected -> result, fired, picks"""
        locs = None
        if 'picks' in st:
            rows = self.forked(lambda: self.count_points(fn))
            at, locs = self.resolve_picks(st['picks'], rows)
            at = {int(k): x for k, x in at}
        else:
            at = {int(k): x for k, x in st['at']}
        total = [0]
        fired = []

        def hit(kind, code, pos):
            k = total[0]
            total[0] = k + 1
            x = at.get(k)
            if x is not None:
                fired.append([k, x, '%s:%s:%s:%s' % (
                    kind, code.co_filename[14:], code.co_name, pos)])
                raise EXC[x]('injected')
        r = self.observed(hit, fn)
        for f in fired:
            self.count('fault_' + f[1])
        return r, fired, locs

    def forked(self, fn):
        """evaluate fn() in a fork of this simulated process"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = [fn(), None]
                except BaseException:
                    import traceback
                    out = [None, traceback.format_exc()]
                data = json.dumps(out).encode()
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        chunks = []
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if status & 0x7f:
            # it ran into a limit: so would this process
            os.kill(os.getpid(), status & 0x7f)
        out, err = json.loads(b''.join(chunks))
        if err:
            raise RuntimeError('in a fork: ' + err)
        return out

    def resolve_picks(self, picks, table):
        """fault positions: uniform over code locations, then occurrences"""
        at = []
        locs = []
        for p in picks:
            if 'loc' in p:
                hit = [e for e in table if e[0] == p['loc']]
                if not hit:
                    continue
                e = hit[0]
                occ = p['occ']
                if occ >= len(e[2]):
                    continue
            else:
                if not table:
                    continue
                rows = sched.hot_rows(table, p)
                e = rows[int(p['r'] * len(rows))]
                occ = int(p['o'] * len(e[2]))
            at.append([e[2][occ], p['exc']])
            locs.append({'loc': e[0], 'occ': occ, 'exc': p['exc']})
        return at, locs

    def do_fault(self, st):
        """run a script with exceptions injected at given event numbers"""
        def run():
            return self.script(st, catch=(Exception, KeyboardInterrupt,
                                          SystemExit))
        r, fired, locs = self.faulted(st, run)
        r['fired'] = fired
        if locs is not None:
            r['picks'] = locs
        return r

    # -- threads ---------------------------------------------------------
    def do_threads(self, st):
        """run several scripts in threads under an explicit schedule.

        schedule: [[thread, k, target], ...] = when `thread` reaches its k-th
        switch point, pass control to `target`.
        """
        n = len(st['bodies'])
        shared = shared_ops(st)
        pre = {}
        if shared:
            # the first operations, common to all threads, were executed
            # before: the threads share the objects
            pv = []
            pt = [] if self.texts else None
            po = dsl.run_script(INTERP, dsl.FP(), st['bodies'][0][:shared],
                                pv, pt)
            pre = {'vals': pv, 'out': po, 'texts': pt}
        picks = None
        schedule = st.get('schedule', ())
        if 'picks' in st:
            schedule = self.resolve_schedule(
                st, st['bodies'], lambda i: self.run_threads(
                    st, [i], (), pre, record=True)[1])
            picks = schedule
        kept = []
        outs, s = self.run_threads(st, range(n), schedule, pre, kept=kept)
        self.count('switches', len(s.switches))
        self.count('points', sum(s.counts))
        r = {'threads': outs, 'switches': s.switches, 'points': s.counts,
             'died': [x for x in s.results if x is not True]}
        if not s.error:
            r['hashes'] = hashes.check(kept)
        if s.error:
            r['error'] = s.error
        if picks is not None:
            r['schedule'] = picks
        return r

    def run_threads(self, st, which, schedule, pre, record=False,
                    kept=None):
        shared = shared_ops(st)
        which = list(which)
        outs = [None] * len(which)
        every = st.get('hash')

        def hasher(vals):
            # the clients also use their results as keys
            if not every:
                return None

            def step(i):
                gate = INTERP.thread_gate
                if vals and i % every[0] == every[1]:
                    gate.enter()
                    try:
                        h = hash(vals[-1])
                    except TypeError:
                        return
                    finally:
                        gate.leave()
                    if kept is not None:
                        kept.append(hashes.Seen(vals[-1], h))
            return step

        def make(i):
            def body(t):
                sc = st['bodies'][which[i]][shared:]
                vals = list(pre['vals']) if shared else []
                texts = [] if self.texts else None
                o = dsl.run_script(INTERP, dsl.FP(), sc, vals, texts,
                                   step=hasher(vals))
                res = {'out': pre['out'] + o if shared else o}
                if texts is not None:
                    res['texts'] = pre['texts'] + texts if shared else texts
                if st.get('singles'):
                    res['singles'] = _singles(st['bodies'][which[i]], vals)
                outs[i] = res
                if kept is not None:
                    kept.extend(vals)
                return True
            return body
        s = self.launch(st, [make(i) for i in range(len(which))], schedule,
                        record)
        return outs, s

    def launch(self, st, bodies, schedule, record=False):
        """run the callables as threads under a schedule"""
        s = sched.Scheduler(bodies, schedule,
                            first=st.get('first', 0) % len(bodies),
                            record=record)
        mon = sys.monitoring
        ev = monitor.Events(())
        ev.start({
            mon.events.PY_START: lambda c, o: s.point('S', c, 0),
            mon.events.LINE: lambda c, l: s.point('L', c, l),
            mon.events.PY_RETURN: lambda c, o, r: s.point('R', c, 0)},
            extra=monitor.sympy_printing_codes()
            if st.get('sympy') else ())
        INTERP.thread_gate = s
        try:
            s.run()
        finally:
            ev.stop()
            INTERP.thread_gate = None
        return s

    def resolve_schedule(self, st, bodies, solo):
        """switch points: uniform over code locations, then occurrences; or
        every m-th point.  solo(i) runs thread i alone, recording"""
        def count(i):
            s = solo(i)
            return [s.locs.rows(), s.counts[0]]
        n = len(bodies)
        memo = {}
        tabs = []
        for i in range(n):
            key = json.dumps(bodies[i])
            if key not in memo:
                memo[key] = self.forked(lambda: count(i))
            tabs.append(memo[key])
        sch = {}
        for p in st['picks']:
            t = p['t'] % n
            table, total = tabs[t]
            to = p['to'] % n
            if not table:
                continue
            if 'every' in p:
                k = int(p['r'] * p['every'])
                while k < total and len(sch) < 4000:
                    sch.setdefault((t, k), to)
                    k += p['every']
                continue
            table = sched.hot_rows(table, p)
            e = table[int(p['r'] * len(table))]
            k = e[2][int(p['o'] * len(e[2]))]
            sch.setdefault((t, k), to)
            if 'back' in p:
                # the other thread stops near the same place
                same = [x for x in tabs[to][0]
                        if x[0].split(':', 1)[1] == e[0].split(':', 1)[1]]
                if same:
                    o = same[0][2]
                    sch.setdefault(
                        (to, o[int(p['o2'] * len(o))] + p['back']), t)
        return [[t, k, u] for (t, k), u in sorted(sch.items())]

    # -- generic ---------------------------------------------------------
    def run(self):
        outs = []
        for st in self.job['steps']:
            fn = getattr(self, 'do_' + st['t'], None)
            if fn is None:
                from . import jobs_ext
                fn = getattr(jobs_ext, 'do_' + st['t'])
                outs.append(fn(self, st))
            else:
                outs.append(fn(st))
        return {'steps': outs, 'stats': self.stats}


def _within(vals, limit=50000):
    """ids of the expressions reachable from `vals` by any reference"""
    from qnet.algebra.core.abstract_algebra import Expression
    seen, todo, res = set(), list(vals), {}
    while todo and len(seen) < limit:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, Expression):
            res[id(o)] = o
            todo.append(vars(o))
        elif isinstance(o, (tuple, list, set, frozenset)):
            todo.extend(o)
        elif isinstance(o, dict):
            todo.extend(o.keys())
            todo.extend(o.values())
        elif isinstance(o, np.ndarray):
            todo.extend(o.ravel().tolist())
        elif type(o).__module__.startswith('qnet'):
            todo.append(getattr(o, '__dict__', ()))
    return res


#: accessors and operations that derive an expression from another one
DERIVE = ['adjoint', 'expand', 'simplify_scalar', 'doit', 'conjugate',
          '@space', '@basis_states', 'toSLH', 'creduce', 'series_inverse',
          '@ket', '@bra', 'expand_in_basis', '@term', '@operand',
          '@local_factors', 'next', 'reduce',
          '@control', '@terms', 'dag',
          '@local_identifiers', '@Ls', '@S', '@H', 'get_blocks', '@T']


def _derive(v):
    """name -> expressions that operation gives for `v`"""
    from qnet.algebra.core.abstract_algebra import Expression
    res = {}
    for name in DERIVE:
        try:
            r = getattr(v, name.lstrip('@'))
            if name[0] != '@':
                r = r()
            xs = [r] if isinstance(r, Expression) else \
                list(itertools.islice(iter(r), 12))
        except Exception:
            continue
        xs = [x for x in xs if isinstance(x, Expression)]
        if xs:
            res[name] = xs
    return res


def _singles(script, vals, interrupted=False):
    bad, n = singles.find(vals)
    return {'bad': sorted(bad + singles.check_ops(
        script, vals, interrupted), key=str), 'n': n}


def _hash(v):
    try:
        return hash(v)
    except Exception:
        return None


def _vandalise(c):
    import numpy as np
    if isinstance(c, set):
        c.clear()
        c.add('junk')
    elif isinstance(c, list):
        del c[:]
        c.append('junk')
    elif isinstance(c, dict):
        c.clear()
        c['junk'] = 'junk'
    elif isinstance(c, np.ndarray) and c.dtype == object and c.size:
        try:
            c[:] = 'junk'
        except Exception:
            return 0
    else:
        return 0
    return 1


def _public_data(v):
    from qnet.algebra.core.abstract_algebra import Expression
    if not isinstance(v, Expression):
        return []
    names = [n for n in dir(type(v)) if not n.startswith('_')
             and isinstance(getattr(type(v), n, None), property)]
    names += [n for n in sorted(vars(v)) if not n.startswith('_')]
    # the array of a Matrix is its documented storage
    return [n for n in names if n != 'matrix']


class _Render(logging.Handler):
    """formats every record, as a real log handler does"""
    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass


def user_rule(name):
    import qnet as q
    wc, ph = q.wc, q.pattern_head
    if name == 'times_X':       # binary rule  A*B -> X
        return (ph(wc('A', head=q.OperatorSymbol),
                   wc('B', head=q.OperatorSymbol)),
                lambda A, B: q.OperatorSymbol('X', hs=A.space * B.space))
    if name == 'times_swap':
        def swap(A, B):
            if A.label == 'B' and B.label == 'A':
                return B * A
            raise q.CannotSimplify()
        return (ph(wc('A', head=q.OperatorSymbol),
                   wc('B', head=q.OperatorSymbol)), swap)
    if name == 'scal2':         # 2 * A -> Y
        return (ph(2, wc('A', head=q.OperatorSymbol)),
                lambda A: q.OperatorSymbol('Y', hs=A.space))
    if name == 'comm_zero':
        return (ph(wc('A'), wc('B')), lambda A, B: q.ZeroOperator)
    if name == 'braket1':
        return (ph(wc('A'), wc('B')), lambda A, B: q.One)
    if name == 'trace_tr':
        return (ph(wc('A', head=q.OperatorSymbol),
                   over_space=wc('h')), lambda A, h: q.ZeroOperator)
    if name == 'tensor_Z':
        return (ph(wc('A', head=q.BasisKet), wc('B')),
                lambda A, B: q.KetSymbol('Z', hs=A.space * B.space))
    if name == 'opket_Z':
        return (ph(wc('A', head=q.OperatorSymbol), wc('B')),
                lambda A, B: q.KetSymbol('Z', hs=A.space * B.space))
    if name == 'series_Y':
        return (ph(wc('A', head=q.CircuitSymbol), wc('B')),
                lambda A, B: q.CircuitSymbol('Y', cdim=A.cdim))
    if name in ('concat_Y', 'concat_Y2', 'series_Y2'):
        return (ph(wc('A', head=q.CircuitSymbol),
                   wc('B', head=q.CircuitSymbol)),
                lambda A, B: q.CircuitSymbol(
                    name[-2:].strip('_'),
                    cdim=A.cdim + (B.cdim if 'concat' in name else 0)))
    if name in ('sop_X', 'sop_X2'):
        return (ph(wc('A', head=q.SuperOperatorSymbol),
                   wc('B', head=q.SuperOperatorSymbol)),
                lambda A, B: q.SuperOperatorSymbol(
                    name[4:], hs=A.space * B.space))
    if name == 'ketbra_Z':
        return (ph(wc('A', head=q.BasisKet), wc('B')),
                lambda A, B: q.OperatorSymbol('Z', hs=A.space * B.space))
    if name == 'plus_pair':
        return (ph(wc('A', head=q.OperatorSymbol),
                   wc('B', head=q.OperatorSymbol)),
                lambda A, B: q.OperatorSymbol('S', hs=A.space * B.space))
    if name == 'times_X2':
        return (ph(wc('A', head=q.OperatorSymbol),
                   wc('B', head=q.OperatorSymbol)),
                lambda A, B: q.OperatorSymbol('X2', hs=A.space * B.space))
    if name == 'scal2b':
        return (ph(2, wc('A', head=q.OperatorSymbol)),
                lambda A: q.OperatorSymbol('Y2', hs=A.space))
    if name == 'comm_sym':
        return (ph(wc('A'), wc('B')),
                lambda A, B: q.OperatorSymbol('K', hs=A.space * B.space))
    if name == 'braket0':
        return (ph(wc('A'), wc('B')), lambda A, B: q.Zero)
    if name == 'trace_one':
        return (ph(wc('A', head=q.OperatorSymbol),
                   over_space=wc('h')), lambda A, h: q.IdentityOperator)
    if name == 'opket_Y':
        return (ph(wc('A', head=q.OperatorSymbol), wc('B')),
                lambda A, B: q.KetSymbol('Y', hs=A.space * B.space))
    if name == 'ident':         # never applies
        def never(**kw):
            raise q.CannotSimplify()
        return (ph(wc('A'), wc('B')), never)
    raise KeyError(name)


def user_simplification(name):
    import qnet as q

    def to_zero(cls, ops, kwargs):
        if len(ops) == 2 and all(isinstance(o, q.OperatorSymbol)
                                 for o in ops):
            return q.ZeroOperator
        return ops, kwargs

    def reverse(cls, ops, kwargs):
        return tuple(reversed(ops)), kwargs
    return {'to_zero': to_zero, 'reverse': reverse}[name]


def execute(job):
    dsl.UNWRAP = bool(job.get('unwrap'))
    if 'mod' in job:
        from . import jobs_ext
        return getattr(jobs_ext, job['mod'])(job)
    return Session(job).run()
