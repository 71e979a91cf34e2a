from .common import *
from .. import eqsim
from .p08 import gen_picks

TAGS = [None, None, 1, 2, 'z', '3', 'eq:a', 10]
READS = ['free_symbols', 'bound_symbols', 'all_symbols', 'as_dict', 'verify',
         'verify_func', 'eq', 'str', 'repr', 'ascii', 'unicode', 'latex']


class PROP(Prop):
    id = 'P15'
    quick = 2000
    thorough = 40000
    rule = ('A run is one process in which a tree of equations grows: random '
            'derivations (all methods of Eq, with and without cont), tags, '
            'copies (also by pickling), sums and products, callbacks that '
            'fail or derive from the same equation themselves, renderings, '
            'clobbered return values, exceptions injected at seeded points '
            'and threads deriving from shared equations under a seeded '
            'schedule. After every step each equation must have the sides, '
            'the tag and the displayed history of an independent model (a '
            'tuple of lines). Non-trivial: an equation with a history was '
            'derived from more than once, or a fault fired or threads were '
            'preempted.')
    assumptions = ['only the public interface of Eq is used']

    def event(self, rng, ids, n):
        """a random operation on one of the equations `ids`"""
        i = 'e%d' % n
        if not ids or rng.random() < 0.08:
            ev = {'do': 'new', 'id': i, 'kind': rng.choice(eqsim.KINDS + [
                'op', 'op']), 'l': rng.randrange(20), 'r': rng.randrange(20)}
            if rng.random() < 0.6:
                ev['tag'] = rng.choice(TAGS)
            return ev
        # prefer branching from old ones
        of = rng.choice(ids[-4:] + ids[:3] + ids)
        z = rng.random()
        if z < 0.6:
            how = rng.choice(['apply', 'apply_to_lhs', 'apply_to_rhs',
                              'apply_mtd', 'apply_mtd_to_lhs',
                              'apply_mtd_to_rhs', 'substitute'])
            if how.startswith('apply_mtd'):
                f = rng.choice([['expand'], ['adjoint'], ['dag'],
                                ['simplify_scalar'], ['rebuild'], ['doit'],
                                ['bogus']])
            elif how == 'substitute':
                f = [rng.randrange(5)]
            else:
                f = rng.choice([
                    ['add', rng.randrange(20)], ['times', rng.choice([2, 3])],
                    ['same'], ['const', rng.randrange(20)],
                    ['args', 2], ['adjoint'],
                    ['fail', rng.choice([1, 2]), rng.randrange(5)],
                    ['reenter', 2, rng.choice([0, 1])]])
            ev = {'do': 'derive', 'id': i, 'of': of, 'how': how, 'f': f}
            if rng.random() < 0.85:
                ev['cont'] = rng.random() < 0.8
            if rng.random() < 0.5:
                ev['tag'] = rng.choice(TAGS)
        elif z < 0.7:
            ev = {'do': 'tag', 'id': i, 'of': of, 'tag': rng.choice(TAGS)}
        elif z < 0.78:
            ev = {'do': 'copy', 'id': i, 'of': of, 'how': rng.choice(
                ['copy', 'copy.copy', 'deepcopy', 'pickle', 'set_tag_same'])}
        elif z < 0.86:
            ev = {'do': 'arith', 'id': i, 'of': of, 'op': rng.choice(
                ['add', 'sub', 'add', 'sub', 'mul', 'rmul', 'div', 'radd'])}
            if ev['op'] in ('mul', 'rmul', 'div', 'radd'):
                ev.update(pool='number', expr=rng.randrange(1, 3))
            elif rng.random() < 0.6:
                ev['with'] = rng.choice(ids)
            else:
                ev['expr'] = rng.randrange(20)
        elif z < 0.98:
            ev = {'do': 'read', 'id': i, 'of': of, 'what': rng.choice(READS),
                  'vandalise': rng.random() < 0.5}
        else:
            ev = {'do': 'drop', 'id': i, 'of': of}
        return ev

    def gen(self, rng, i):
        steps, ids = [], []
        n = 0
        z = rng.random()
        faults, threads = z < 0.35, 0.35 <= z < 0.65
        for _ in range(rng.choice([4, 8, 14])):
            if threads and ids and rng.random() < 0.25:
                k = rng.choice([2, 2, 3])
                evs = []
                for t in range(k):
                    mine, b = list(ids), []
                    for _ in range(rng.choice([1, 2, 3])):
                        n += 1
                        ev = self.event(rng, mine, n)
                        if ev['do'] == 'drop':
                            continue
                        b.append(ev)
                        mine.append(ev['id'])
                    evs.append(b)
                if rng.random() < 0.3:
                    # the same work in each
                    evs = [[dict(ev, id='%st%d' % (ev['id'], t), **(
                        {'of': ev['of'] + 't%d' % t}
                        if ev.get('of') in [x['id'] for x in evs[0]]
                        else {})) for ev in evs[0]] for t in range(k)]
                steps.append({'t': 'eqthreads', 'id': 'th%d' % n, 'evs': evs,
                              'first': rng.randrange(k),
                              'picks': gen_picks(rng, k)})
                ids += [ev['id'] for b in evs for ev in b]
                continue
            n += 1
            ev = dict(self.event(rng, ids, n), t='eq')
            if faults and rng.random() < 0.25:
                p = {'r': rng.random(), 'o': rng.random(), 'exc': rng.choice([
                    'KeyboardInterrupt', 'MemoryError', 'RecursionError'])}
                ev['picks'] = [p]
            steps.append(ev)
            if ev['do'] not in ('read', 'drop'):
                ids.append(ev['id'])
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps)
        vs, new = [], []
        interesting = 0
        used = {}
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            st = dict(st)
            if st['t'] == 'eqthreads':
                st.pop('picks', None)
                if 'schedule' in got:
                    st['schedule'] = got['schedule']
                interesting += len(got['switches'])
                ctx.fault('preemption', len(got['switches']))
            else:
                if 'picks' in got:
                    st['picks'] = got['picks']
                for f in got.get('fired', ()):
                    ctx.fault(f[1])
                    interesting += 1
                if st.get('of') and st.get('cont'):
                    used[st['of']] = used.get(st['of'], 0) + 1
                if st['do'] == 'derive':
                    ctx.fault('failing_callback', st['f'][0] == 'fail')
                    ctx.fault('reentrant_callback', st['f'][0] == 'reenter')
            new.append(st)
            if got['bad'] and not vs:
                vs.append(Violation('equation', 'step %d: %s' % (
                    k, got['bad'][0])))
        if res['steps']:
            ctx.probe('equations', res['steps'][-1]['n'][0])
            ctx.probe('comparisons', res['steps'][-1]['n'][1])
        interesting += any(v > 1 for v in used.values())
        return vs, {'sig': digest(steps), 'nontrivial': interesting > 0,
                    'resolved': {'steps': new}}

    def scripts(self, case):
        return []

    def shrink(self, case):
        steps = case['steps']
        yield from super().shrink(case)
        for i, st in enumerate(steps):
            def put(**kw):
                return {'steps': steps[:i] + [dict(st, **kw)] + steps[i + 1:]}
            if st['t'] == 'eqthreads':
                for j, b in enumerate(st['evs']):
                    for m in range(len(b)):
                        yield put(evs=st['evs'][:j] + [b[:m] + b[m + 1:]]
                                  + st['evs'][j + 1:])
                sch = st.get('schedule', [])
                if len(sch) > 3:
                    h = len(sch) // 2
                    yield put(schedule=sch[:h])
                    yield put(schedule=sch[h:])
            for key in ('tag', 'cont', 'picks'):
                if key in st:
                    d = dict(st)
                    del d[key]
                    yield {'steps': steps[:i] + [d] + steps[i + 1:]}
