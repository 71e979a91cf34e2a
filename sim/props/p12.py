from .common import *
from .. import singles
from .p08 import PROP as P08, gen_picks

SINGLES = ['CIdentity', 'CircuitZero', 'FullSpace', 'IdentityOperator',
           'IdentitySuperOperator', 'One', 'TrivialKet', 'TrivialSpace',
           'Zero', 'ZeroKet', 'ZeroOperator', 'ZeroSuperOperator']
QUANTUM = ['IdentityOperator', 'IdentitySuperOperator', 'One', 'Zero',
           'ZeroOperator', 'ZeroSuperOperator']
N_LAWS = 103


class PROP(P08):
    id = 'P12'
    quick = 1200
    thorough = 24000
    envs = [('0', '0'), ('11', '5')]
    rule = ('A run is one process (or two, with stored bytes handed on) in '
            'which singletons are obtained by every route (name, class, '
            'create, copy, deepcopy, pickle, source representation, algebraic '
            'laws, singleton classes defined by the client) from within '
            'caching and rule scopes, interrupted at seeded points, and from '
            'several threads under a seeded schedule. Every object of a '
            'singleton class reachable from any value must be the one '
            'recorded when the library was imported. Non-trivial: a '
            'singleton was examined; distinct by the history.')
    assumptions = ['as P08 for threads, as P03 for interrupts']
    SCOPED = ['Expression', 'Zero', 'One', 'IdentityOperator', 'ZeroOperator',
              'TrivialSpace', 'ZeroKet', 'CIdentity', 'CircuitZero',
              'Operation', 'OperatorPlus', 'OperatorTimes', 'ScalarValue',
              'LocalSpace', 'ProductSpace', 'SPre', 'BraKet', 'KetPlus']

    def fixed_cases(self):
        return []

    def script(self, rng):
        """a script that obtains singletons"""
        s = []
        fresh = []
        n = rng.choice([3, 5, 8])
        while len(s) < n:
            z = rng.random()
            if z < 0.2:
                s.append({'f': 'h.num', 'a': [
                    rng.choice(singles.NUM_OPS), rng.choice(singles.NUMBERS),
                    rng.choice(singles.NUMBERS), rng.random() < .5]})
            elif z < 0.5:
                name = rng.choice(SINGLES)
                hows = list(singles.ANY)
                if name in QUANTUM:
                    hows += singles.QUANTUM + ['adjoint']
                s.append({'f': 'h.obtain', 'a': [name, rng.choice(hows)]})
            elif z < 0.8:
                s.append({'f': 'h.law', 'a': [rng.randrange(N_LAWS),
                                              rng.randrange(3)]})
            elif z < 0.87 or not fresh:
                fresh.append(len(s))
                s.append({'f': 'h.fresh', 'a': [
                    rng.choice(['plain', 'expression', 'child', 'decorated']),
                    rng.choice(['Mine', 'Yours', 'IdentityOperator', 'Zero']),
                    rng.choice([0, 1, 3])]})
                self.use(rng, s, fresh[-1])
            elif z < 0.95:
                self.use(rng, s, rng.choice(fresh))
            else:
                s.append({'f': 'h.made', 'a': [
                    ['$', rng.choice(fresh)]
                    for _ in range(rng.choice([1, 2, 3]))]})
        if rng.random() < 0.3:
            s.append({'f': 'h.value', 'a': [
                ['T'] + [['$', i] for i in range(len(s))
                         if s[i]['f'] != 'h.fresh']]})
        return s

    def use(self, rng, s, i):
        s.append({'f': 'h.call', 'a': [['$', i]] + rng.choice(
            [[], [], [1]])})
        s.append({'f': 'h.ready', 'a': [['$', len(s) - 1]]})

    def shared_fresh(self, rng):
        """all threads use one new singleton class"""
        s = [{'f': 'h.fresh', 'a': [
            rng.choice(['plain', 'expression', 'child', 'decorated']),
            'Mine', rng.choice([1, 2, 4])]}]
        if rng.random() < .3:
            s.append({'f': 'h.fresh', 'a': ['plain', 'Mine', 1]})
        k = len(s)
        for _ in range(rng.choice([1, 2, 3])):
            self.use(rng, s, rng.randrange(k))
        s += [{'f': 'h.made', 'a': [['$', i] for i in range(k)]}]
        return s, k

    def gen(self, rng, i):
        fam = [self.script(rng) for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.5:
            fam.append(gen.gen_script(rng, None, {'printing': 0}))
        mode = rng.choice(['scopes', 'scopes', 'threads', 'threads',
                           'faults', 'restart'])
        if mode == 'restart':
            # values of new classes are not stored (as for any local class)
            s = [op for op in self.script(rng) if op['f'] in (
                'h.obtain', 'h.law', 'h.num')]
            s = s or [{'f': 'h.obtain', 'a': ['Zero', 'class']}]
            s += [{'f': 'h.value', 'a': [['T'] + [
                ['$', i] for i in range(len(s))]]}]
            return {'mode': mode, 'setup': 0, 's': s,
                    'h1': [rng.choice(fam) for _ in range(rng.choice(
                        [0, 1]))],
                    'h2': [rng.choice(fam) for _ in range(rng.choice(
                        [0, 1]))],
                    'how': 'pickle%d' % rng.randrange(6),
                    'together': rng.random() < .5,
                    'env2': rng.randrange(2), 'steps': []}
        steps, stack, nid = [], [], 0
        n = rng.choice([2, 4, 7])
        while len(steps) < n:
            z = rng.random()
            if mode == 'threads' and z < 0.5:
                m = rng.choice([2, 2, 3, 4])
                st = {'t': 'threads', 'first': rng.randrange(m)}
                y = rng.random()
                if y < 0.55:
                    b, k = self.shared_fresh(rng)
                    st.update(bodies=[b] * m, shared=k)
                elif y < 0.8:
                    st['bodies'] = [fam[0]] * m
                else:
                    st['bodies'] = [rng.choice(fam) for _ in range(m)]
                st['picks'] = gen_picks(rng, m)
                steps.append(st)
            elif mode == 'faults' and z < 0.5:
                s = rng.choice(fam)
                if rng.random() < .4:
                    s = self.shared_fresh(rng)[0]
                steps.append({'t': 'fault', 's': s, 'picks': [
                    {'r': rng.random(), 'o': rng.random(),
                     'exc': rng.choice(['KeyboardInterrupt', 'MemoryError',
                                        'RecursionError', 'SystemExit'])}
                    for _ in range(rng.choice([1, 1, 2]))]})
                if rng.random() < .7:
                    steps.append({'t': 'script', 's': s})
            elif mode == 'scopes' and z < 0.35 and len(stack) < 3:
                nid += 1
                cm = rng.choice(['nocache', 'cache', 'cache', 'rules'])
                sc = {'t': 'enter', 'id': nid, 'cm': cm}
                if cm != 'nocache':
                    sc['classes'] = [rng.choice(self.SCOPED) for _ in range(
                        rng.choice([1, 2, 3]))]
                stack.append(nid)
                steps.append(sc)
            elif mode == 'scopes' and z < 0.6 and stack:
                st = {'t': 'exit', 'id': stack.pop()}
                if rng.random() < .3:
                    st['exc'] = rng.choice(['ValueError',
                                            'KeyboardInterrupt'])
                steps.append(st)
            elif z > 0.95:
                steps.append({'t': 'gc'})
            elif z > 0.92:
                steps.append({'t': 'init_printing', 'kw': {
                    'repr_format': rng.choice(['ascii', 'unicode'])}})
            else:
                steps.append({'t': 'script', 's': rng.choice(fam)})
        for st in steps:
            if st['t'] in ('script', 'threads', 'fault'):
                st['singles'] = True
        return {'mode': mode, 'setup': 0, 'steps': steps}

    def scripts(self, case):
        if case['mode'] == 'restart':
            return [case['s']] + case['h1'] + case['h2']
        return super().scripts(case)

    def problem(self, got, s, where, vs, ctx):
        """-> number of singletons examined"""
        r = got.get('singles')
        if r is None:
            return 0
        for i, what in r['bad'][:1]:
            vs.append(Violation('singleton', '%s%s: %s' % (
                where, self.op(s, i), what)))
        ctx.probe('singletons_examined', r['n'])
        return r['n']

    def op(self, s, i):
        from .. import dsl
        return dsl.fmt_script(s)[i]

    def evaluate(self, case, ctx, texts=False):
        if case['mode'] == 'restart':
            return self.restart(case, ctx, texts)
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs, new, n = [], [], 0
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            at = 'step %d: ' % k
            if st['t'] == 'threads':
                st = dict(st)
                st.pop('picks', None)
                if 'schedule' in got:
                    st['schedule'] = got['schedule']
                new.append(st)
                ctx.fault('preemption', len(got['switches']))
                if vs:
                    continue
                if 'error' in got and self.too_long(case, ctx, k):
                    return [], {'sig': digest(steps), 'nontrivial': False}
                if 'error' in got or got['died']:
                    vs.append(Violation('no-progress', at + 'threads did not '
                                        'finish: %s %s' % (
                                            got.get('error'), got['died'])))
                    continue
                for i, (b, o) in enumerate(zip(st['bodies'],
                                               got['threads'])):
                    n += self.problem(o, b, at + 'thread %d, switches %s: ' % (
                        i, got['switches'][:8]), vs, ctx)
                continue
            if st['t'] == 'fault':
                for x in got['fired']:
                    ctx.fault(x[1])
                new.append(dict(st, picks=got.get('picks', [])))
            else:
                new.append(st)
            if st['t'] == 'exit' and st.get('exc'):
                ctx.fault('scope_exit_by_' + st['exc'])
            if 's' in st and not vs:
                n += self.problem(got, st['s'], at, vs, ctx)
        ctx.probe('mode_' + case['mode'])
        return vs, {'sig': digest(new), 'nontrivial': n > 0,
                    'resolved': dict(case, steps=new)}

    def restart(self, case, ctx, texts):
        s = case['s']
        vs = []
        which = list(range(len(s)))
        hist = lambda h: [{'t': 'script', 's': x} for x in h]
        r1 = ctx.session(hist(case['h1']) + [
            {'t': 'script', 's': s, 'label': 'A', 'singles': True},
            {'t': 'store', 'label': 'A', 'which': which, 'how': case['how'],
             'together': case['together']}])
        n = self.problem(r1['steps'][-2], s, 'first process: ', vs, ctx)
        stored = r1['steps'][-1]
        for i, x in zip(which, stored['stored']):
            if x[0] == 'fail' and not vs:
                vs.append(Violation('singleton', 'storing %s failed: %s' % (
                    self.op(s, i), x[1:3])))
        if vs:
            return vs, {}
        ctx.fault('process_restart')
        r2 = ctx.session(hist(case['h2']) + [
            {'t': 'load', 'as': 'L', 'which': which, 'how': case['how'],
             'n': len(s), 'stored': stored['stored'],
             'all': stored.get('all')},
            {'t': 'singles', 'label': 'L', 's': s},
            {'t': 'script', 's': s, 'singles': True}],
            env=self.envs[case['env2']])
        got = r2['steps'][-3:]
        for f in got[0]['failed'][:1]:
            vs.append(Violation('singleton', 'loading %s failed: %s' % (
                self.op(s, max(0, f[0])), f[1:])))
        if not vs:
            n += self.problem(got[1], s, 'loaded: ', vs, ctx)
        if not vs:
            n += self.problem(got[2], s, 'after loading: ', vs, ctx)
        ctx.probe('mode_restart')
        return vs, {'sig': digest(case), 'nontrivial': n > 0}

    def render(self, case):
        from .. import dsl
        if case['mode'] != 'restart':
            return super().render(case)
        lines = ['stored and loaded by %s%s' % (
            case['how'], ', together' if case['together'] else '')]
        for name in ('h1', 's', 'h2'):
            for h in ([case[name]] if name == 's' else case[name]):
                lines.append({'h1': 'before storing:', 's': 'stored:',
                              'h2': 'before loading:'}[name])
                lines += ['    ' + l for l in dsl.fmt_script(h)]
        return lines

    def shrink(self, case):
        if case['mode'] != 'restart':
            yield from super().shrink(case)
            return
        for name in ('h1', 'h2'):
            for i in range(len(case[name])):
                yield dict(case, **{name: case[name][:i] +
                                    case[name][i + 1:]})
        for i in reversed(range(len(case['s']))):
            c = gen.drop_op(case['s'], i)
            if c:
                yield dict(case, s=c)
