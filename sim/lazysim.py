"""Live iterators of the library, interleaved with other work (P17)."""
import gc

from . import dsl, jobs
from .hashes import Seen

LIMIT = 14
PATTERNS = ['sym', 'symargs', 'times2', 'square', 'plus', 'plus_head',
            'plus_tail', 'scaled', 'sigma', 'ket', 'anyop', 'cond', 'circ',
            'series', 'num', 'anyhs', 'thing']


class Live:
    def __init__(self, src, it):
        self.src = src
        self.it = it


class World:
    def __init__(self, ses):
        self.ses = ses
        self.live = {}
        self.kept = []
        self.patterns = {}

    def pattern(self, name):
        """a pattern, shared by everybody in this process"""
        import qnet as q
        if name not in self.patterns:
            if name == 'anyhs':
                p = q.wc('h', head=q.HilbertSpace)
            elif name == 'thing':
                p = q.wc('X', head=(q.Operator, q.State, q.Circuit, q.Scalar))
            else:
                p = dsl._patterns()(name)
            self.patterns[name] = p
        return self.patterns[name]

    def sources(self, vals):
        """what can be iterated lazily: [number of the value, kind]"""
        import qnet as q
        from qnet.algebra.core.indexed_operations import IndexedSum
        from qnet.utils.indices import IndexRangeBase
        rare, common = [], []
        ranges = []
        for i, v in enumerate(vals):
            if isinstance(v, (dsl.Skip, Exception)):
                continue
            if isinstance(v, IndexedSum):
                rare.append([i, 'terms'])
                rare.append([i, 'ranges'])
            if isinstance(v, q.HilbertSpace):
                rare.append([i, 'basis'])
            elif hasattr(v, 'space') and not isinstance(v, type):
                common.append([i, 'space'])
            if isinstance(v, IndexRangeBase):
                rare.append([i, 'range'])
                ranges.append(i)
            if isinstance(v, q.QuantumExpression) or \
                    isinstance(v, q.Circuit):
                for p in PATTERNS:
                    common.append([i, 'find:' + p])
        for i in ranges:
            for j in ranges:
                if i != j:
                    rare.append([[i, j], 'product'])
        return rare, common

    def pick(self, st, vals):
        if 'src' in st:
            return st['src']
        rare, common = self.sources(vals)
        pool = rare if rare and (st['r2'] < 0.7 or not common) else common
        if not pool:
            return None
        return pool[int(st['r'] * len(pool))]

    def make(self, src, vals):
        """-> the iterator (called as a client)"""
        i, kind = src
        if kind == 'product':
            from qnet.utils.indices import yield_from_ranges
            return yield_from_ranges([vals[j] for j in i])
        v = vals[i]
        if isinstance(v, (dsl.Skip, Exception)):
            raise dsl.Skip()
        if kind == 'terms':
            return iter(v.terms)
        if kind == 'ranges':
            from qnet.utils.indices import yield_from_ranges
            return yield_from_ranges(v.ranges)
        if kind == 'basis':
            return iter(v.basis_states)
        if kind == 'space':
            return iter(v.space.basis_states)
        if kind == 'range':
            return iter(v.iter())
        if kind.startswith('find:'):
            return iter(self.pattern(kind[5:]).finditer(v))
        raise KeyError(kind)

    def call(self, fn):
        gate = jobs.INTERP.thread_gate
        if gate is not None:
            gate.enter()
        jobs.INTERP.active = True
        try:
            return fn(), None
        except StopIteration:
            return None, 'stop'
        except dsl.Skip:
            return None, 'skip'
        except (Exception, KeyboardInterrupt, SystemExit) as exc:
            return None, '!' + type(exc).__name__
        finally:
            jobs.INTERP.active = False
            if gate is not None:
                gate.leave()

    def event(self, st, clients=None):
        """`clients`: the values of the scripts, by label"""
        do = st['do']
        if do in ('open', 'all'):
            label = st['label']
            if label not in self.ses.scripts:
                return {'end': 'skip'}
            vals = self.ses.scripts[label][1]
            src = self.pick(st, vals)
            if src is None:
                return {'end': 'skip'}
            it, err = self.call(lambda: self.make(src, vals))
            if err:
                return {'src': src, 'end': err, 'items': []}
            if do == 'open':
                self.live[st['id']] = Live(src, it)
                return {'src': src, 'items': [], 'end': 'more'}
            live, n = Live(src, it), st.get('limit', LIMIT)
        else:
            live = self.live.get(st['id'])
            if live is None:
                return {'end': 'skip'}
            n = st.get('n', 1)
            if do == 'close':
                _, err = self.call(live.it.close) \
                    if hasattr(live.it, 'close') else (None, None)
                return {'items': [], 'end': err or 'more'}
            if do == 'drop':
                del self.live[st['id']]
                live = None
                gc.collect()
                return {'items': [], 'end': 'more'}
        r = {'items': [], 'end': 'more'}
        if self.ses.texts:
            r['texts'] = []
        if do == 'all':
            r['src'] = live.src
        fp = dsl.FP()
        for _ in range(n):
            item, err = self.call(lambda: next(live.it))
            if err:
                r['end'] = err
                break
            shown = dict(item) if isinstance(item, dict) else item
            d = fp.digest(shown)
            r['items'].append(d)
            if self.ses.texts:
                r['texts'].append(fp.text(shown))
            if st.get('clobber') and jobs._vandalise(item):
                continue
            self.kept.append((item, d))
        return r

    def check(self):
        """everything that was yielded is what it was"""
        bad = []
        fp = dsl.FP()
        for n, (item, d) in enumerate(self.kept):
            shown = dict(item) if isinstance(item, dict) else item
            now = fp.digest(shown)
            if now != d and len(bad) < 3:
                bad.append('item %d has become %s' % (n, fp.text(shown)))
        return bad


def world(ses):
    if not hasattr(ses, 'lazyworld'):
        ses.lazyworld = World(ses)
    return ses.lazyworld


def do_lazy(ses, st):
    w = world(ses)
    if st['do'] == 'check':
        return {'bad': w.check(), 'n': len(w.kept)}
    if 'picks' in st or 'at' in st:
        r, fired, locs = ses.faulted(st, lambda: w.event(st))
        r['fired'] = fired
        if locs is not None:
            r['picks'] = locs
        return r
    return w.event(st)


def do_lazythreads(ses, st):
    """threads which consume iterators of their own"""
    w = world(ses)
    n = len(st['evs'])
    outs = [[None] * len(b) for b in st['evs']]

    def make(i):
        def body(t):
            for j, ev in enumerate(st['evs'][i]):
                outs[i][j] = w.event(ev)
            return True
        return body
    schedule = st.get('schedule', ())
    r = {}
    if 'picks' in st:
        schedule = ses.resolve_schedule(
            st, st['evs'], lambda i: ses.launch(st, [make(i)], (), True))
        r['schedule'] = schedule
    s = ses.launch(st, [make(i) for i in range(n)], schedule)
    r['bad'] = []
    if s.error or any(x is not True for x in s.results):
        r['bad'].append('threads did not finish: %s %s' % (
            s.error, s.results))
    r['threads'] = outs
    r['switches'] = s.switches
    return r
