from .common import *
from .. import config, gen


def gen_picks(rng, n):
    """preemptions: a few single ones, or regular time slices"""
    picks = []
    if rng.random() < 0.75:
        for _ in range(rng.choice([1, 2, 3, 5, 8, 14])):
            t = rng.randrange(n)
            p = {'t': t, 'r': rng.random(), 'o': rng.random(),
                 'to': t + rng.randrange(1, n)}
            if rng.random() < 0.5:
                p['hot'] = rng.choice([1, 2, 2])
                p['f'] = rng.random()
            if rng.random() < 0.25:
                p['back'] = rng.choice([0, 0, 1, 2, 5, 30])
                p['o2'] = rng.random()
            picks.append(p)
    else:
        for t in range(n):
            picks.append({'t': t, 'r': rng.random(), 'to': t + 1,
                          'every': rng.choice([1, 2, 3, 7, 20, 100])})
    return picks


class PROP(Prop):
    id = 'P08'
    quick = 900
    thorough = 20000
    rule = ('A run is one process in which two to four cooperative threads '
            'execute client scripts (the same one, near-misses, or scripts '
            'continuing in the same or in different ways from shared '
            'objects and patterns) under a seeded schedule with '
            'preemptions at function entries, returns and source lines of '
            'qnet, drawn uniformly over the code locations each thread '
            'reaches, or regular time slices down to a switch at every '
            'point; afterwards the scripts run again sequentially. Every '
            'outcome must equal that of the script alone in a pristine '
            'process. Non-trivial: at least one preemption took place.')
    assumptions = ['switch points are entries, returns and source lines of '
                   'qnet functions; third-party and C code is atomic']
    profile = {'printing': 0}
    sympy = False

    def family(self, rng):
        fam = family(rng, self.profile, bases=rng.choice([1, 2]),
                     siblings=rng.choice([1, 2]))
        # known finding F-P08-1, see fixed_cases
        return [without(s, 'rewrite_with_operator_pm_cc') for s in fam]

    def fixed_cases(self):
        # temporary rules are process-wide; a function that uses them
        # internally is not thread-safe
        b = [{'f': 'OperatorSymbol', 'a': ['A'], 'k': {'hs': 1}},
             {'f': 'op.mul', 'a': [['R', '1/2'], ['$', 0]]},
             {'f': '.adjoint', 'a': [['$', 1]]},
             {'f': 'op.add', 'a': [['$', 1], ['$', 2]]},
             {'f': 'rewrite_with_operator_pm_cc', 'a': [['$', 3]]}]
        out = []
        for n in range(6):
            rng = run_rng('P08-fixed', n)
            out.append({'setup': 0, 'steps': [
                {'t': 'threads', 'first': 0, 'bodies': [b, b],
                 'picks': gen_picks(rng, 2)},
                {'t': 'script', 's': b}]})
        return out

    def setup(self, rng):
        return []

    def gen(self, rng, i):
        fam = self.family(rng)
        steps = self.setup(rng)
        pre = len(steps)
        if rng.random() < 0.3:
            steps.append({'t': 'script', 's': rng.choice(fam)})
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.choice([2, 2, 2, 3, 4])
            st = {'t': 'threads', 'first': rng.randrange(n)}
            if self.sympy:
                st['sympy'] = True
            if rng.random() < 0.6:
                m = rng.choice([1, 2, 3])
                st['hash'] = [m, rng.randrange(m)]
            z = rng.random()
            if rng.random() < 0.25:
                st['shared'], st['bodies'] = gen.diverging(rng, n)
            elif z < 0.35:
                st['bodies'] = [fam[0]] * n
            elif z < 0.6:
                b = rng.choice(fam)
                st['bodies'] = [b] * n
                st['shared'] = rng.randrange(1, max(2, len(b)))
            else:
                st['bodies'] = [rng.choice(fam) for _ in range(n)]
            st['picks'] = gen_picks(rng, n)
            steps.append(st)
        for _ in range(2):
            steps.append({'t': 'script', 's': rng.choice(fam)})
        return {'setup': pre, 'steps': steps}

    def shrink(self, case):
        pre = case['setup']
        steps = case['steps']
        for i, st in enumerate(steps):
            sch = st.get('schedule')
            if sch and len(sch) > 3:
                size = len(sch) // 2
                while size >= 2:
                    for a in range(0, len(sch), size):
                        yield dict(case, steps=steps[:i] + [dict(
                            st, schedule=sch[:a] + sch[a + size:])]
                            + steps[i + 1:])
                    size //= 2
            if st['t'] == 'threads' and len(st['bodies']) > 2:
                n = len(st['bodies']) - 1
                yield dict(case, steps=steps[:i] + [dict(
                    st, bodies=st['bodies'][:n], first=st['first'] % n,
                    schedule=[x for x in st['schedule']
                              if x[0] < n and x[2] < n])] + steps[i + 1:])
            if st.get('hash'):
                st2 = dict(st)
                del st2['hash']
                yield dict(case, steps=steps[:i] + [st2] + steps[i + 1:])
            if st.get('shared'):
                st2 = dict(st)
                del st2['shared']
                yield dict(case, steps=steps[:i] + [st2] + steps[i + 1:])
        head = steps[:pre]
        for c in super().shrink({'steps': steps[pre:]}):
            yield dict(case, steps=head + c['steps'])

    def too_long(self, case, ctx, k):
        """is step `k` beyond the bound without any preemption, too?"""
        steps = list(case['steps'][:k + 1])
        st = {a: b for a, b in steps[k].items() if a != 'picks'}
        steps[k] = dict(st, schedule=[])
        return 'error' in ctx.session(steps)['steps'][k]

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        cfg = steps[:case['setup']]
        res = ctx.session(steps, texts=texts)
        vs, new, sig = [], [], []
        switched = 0
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            if st['t'] == 'threads':
                st = dict(st)
                st.pop('picks', None)
                if 'schedule' in got:
                    st['schedule'] = got['schedule']
                new.append(st)
                switched += len(got['switches'])
                sig.append(got['switches'])
                ctx.fault('preemption', len(got['switches']))
                ctx.probe('switch_points', sum(got['points']))
                if vs:
                    continue
                if 'error' in got and case.get('steps') and \
                        self.too_long(case, ctx, k):
                    return [], {'sig': digest(steps), 'nontrivial': False,
                                'resolved': dict(case, steps=steps)}
                if 'error' in got or got['died']:
                    vs.append(Violation('no-progress', 'step %d: threads did '
                                        'not finish: %s %s' % (
                                            k, got.get('error'),
                                            got['died'])))
                    continue
                for i, (b, o) in enumerate(zip(st['bodies'],
                                               got['threads'])):
                    ref = ctx.ref(b, pre=cfg, texts=texts)
                    if check_script(ctx, st, o, ref, 'thread', vs, texts, b,
                                    'step %d, thread %d, switches %s: ' % (
                                        k, i, got['switches'][:8])):
                        break
                for b in got['hashes']['bad']:
                    if not vs:
                        vs.append(Violation('hash', 'step %d: %s' % (k, b)))
                continue
            new.append(st)
            if vs:
                continue
            if st['t'] == 'script':
                ref = ctx.ref(st['s'], pre=cfg, texts=texts)
                check_script(ctx, st, got, ref, 'afterwards', vs, texts,
                             st['s'], 'step %d, ' % k)
        return vs, {'sig': digest([sig, steps]), 'nontrivial': switched > 0,
                    'resolved': dict(case, steps=new)}

