from .common import *


def render_op(script, i):
    from .. import dsl
    return dsl.fmt_script(script)[i]


#: arguments of init_algebra, the last two invalid
SPACES = ['LocalSpace', 'LocalSpace', 'CavitySpace', 'CavitySpace',
          'SpinSpace', 'OperatorSymbol', 'NoSuchSpace']


class PROP(Prop):
    id = 'P01'
    quick = 1300
    thorough = 12000
    rule = ('A run is one process in which a random sequence of client '
            'scripts (bases, near-miss siblings, repeats, garbage collection '
            'in between) is executed; every operation outcome must equal the '
            'outcome of the same script alone in a pristine process. '
            'Non-trivial: the session repeats or mutates at least one script; '
            'distinct by the digest of all outcomes.')
    assumptions = ['numbers that compare equal but are spelled with different '
                   'types (2, 2.0) are not mixed within a session']

    def profile(self, rng):
        return {'printing': 2.0 if rng.random() < .5 else 0}

    def gen(self, rng, i):
        fam = family(rng, self.profile(rng), bases=rng.choice([1, 2, 4]),
                     siblings=rng.choice([1, 3, 6]))
        if rng.random() < 0.4:
            fam += gen.variations(rng, rng.choice(fam), 4)
        steps = []
        spaces = rng.random() < 0.15
        if rng.random() < 0.2:
            # without a cache, memory is freed and used again
            steps.append({'t': 'enter', 'cm': 'nocache', 'id': 1})
        n = rng.choice([3, 6, 10, 16])
        for _ in range(n):
            steps.append({'t': 'script', 's': rng.choice(fam)})
            if rng.random() < 0.12:
                steps[-1]['slices'] = True
            if rng.random() < 0.1:
                steps.append({'t': 'gc'})
            if spaces and rng.random() < 0.3:
                steps.append({'t': 'init_algebra', 'cls': rng.choice(SPACES)})
        if rng.random() < 0.3:
            steps.append({'t': 'relations', 'seed': rng.randrange(10 ** 6)})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        res = ctx.session(case['steps'], texts=texts)
        vs = []
        seen = set()
        rep = 0
        pre = []
        for k, (st, got) in enumerate(zip(case['steps'], res['steps'])):
            if st['t'] == 'relations':
                ctx.probe('pairs_compared', got['n'])
                for b in got['bad'][:1]:
                    vs.append(Violation('equality', 'step %d: %s' % (k, b)))
                continue
            if st['t'] != 'script':
                ctx.fault(st['t'])
                if st['t'] == 'init_algebra' and got['init'] == 'ok':
                    pre = [st]
                continue
            d = digest(st['s'])
            if d in seen:
                rep += 1
            seen.add(d)
            ref = ctx.ref(st['s'], pre=pre, texts=texts)
            check_script(ctx, st, got, ref, 'history', vs, texts, st['s'],
                         'step %d, ' % k)
            if st.get('slices') and not vs:
                # what is done earlier in the same script has no influence
                # on an operation that does not use it
                for i in range(1, len(st['s'])):
                    sl = gen.slice_to(st['s'], i)
                    if len(sl) == i + 1:
                        continue
                    r1 = ctx.ref(sl, pre=pre, texts=texts)
                    ctx.probe('slices')
                    if r1['out'][-1] != got['out'][i]:
                        vs.append(Violation('history', (
                            'step %d, operation %s: outcome %s, but %s when '
                            'only the operations it depends on are executed'
                            '%s' % (k, render_op(st['s'], i),
                                    got['out'][i], r1['out'][-1],
                                    '\n   alone: %s\n   here:  %s' % (
                                        r1['texts'][-1], got['texts'][i])
                                    if texts else ''))))
                        break
            if vs:
                break
        ctx.probe('repeated_scripts', rep)
        ctx.probe('operations', res['stats'].get('ops', 0))
        return vs, {'sig': digest(res['steps']),
                    'nontrivial': len(res['steps']) > 1}
