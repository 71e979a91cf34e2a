from .common import *
from .. import config

FNS = ['str', 'repr', 'ascii', 'unicode', 'latex', 'srepr', 'tree']


class PROP(Prop):
    id = 'P07'
    quick = 700
    thorough = 14000
    rule = ('A run is one process with a random printing configuration in '
            'which client scripts print all kinds of results in all formats, '
            'with settings, caller caches and failing calls, in any order; '
            'every printing and algebraic result must equal that of a '
            'pristine process with the same configuration, earlier results '
            'are fingerprinted again and printed again. Non-trivial: a '
            'script was preceded by printing.')
    assumptions = ['a cache dictionary passed by the caller is not shared '
                   'between calls']

    def gen(self, rng, i):
        fam = [config.any_probe(rng, wild=True) for _ in range(3)]
        fam += family(rng, {'printing': 4.0}, bases=rng.choice([1, 2]),
                      siblings=rng.choice([1, 2]))
        fam.append(gen.gen_script(rng, None, {'printing': 0}))
        if rng.random() < 0.1:
            fam.append([config.prefill(rng)])
        steps, labels = [], []
        cfg = []
        if rng.random() < 0.6:
            cfg = [{'t': 'init_printing', 'kw': config.good(rng)}]
        for _ in range(rng.choice([4, 7, 11])):
            z = rng.random()
            if labels and z < 0.22:
                steps.append({'t': 'reprint', 'label': rng.choice(labels),
                              'fns': rng.sample(FNS, 3)})
            elif labels and z < 0.32:
                steps.append({'t': 'recheck', 'label': rng.choice(labels)})
            else:
                st = {'t': 'script', 's': rng.choice(fam)}
                if rng.random() < 0.4:
                    st['label'] = 'L%d' % len(labels)
                    labels.append(st['label'])
                steps.append(st)
        for l in labels:
            steps.append({'t': 'recheck', 'label': l})
        return {'config': cfg, 'steps': steps}

    def shrink(self, case):
        if case['config']:
            yield dict(case, config=[])
            kw = case['config'][0]['kw']
            for k in kw:
                yield dict(case, config=[dict(case['config'][0], kw={
                    a: b for a, b in kw.items() if a != k})])
        yield from super().shrink(case)

    def render(self, case):
        return super().render({'steps': case['config'] + case['steps']})

    def evaluate(self, case, ctx, texts=False):
        cfg, steps = case['config'], case['steps']
        res = ctx.session(cfg + steps, texts=texts)['steps'][len(cfg):]
        vs, kept = [], {}
        for k, (st, got) in enumerate(zip(steps, res)):
            if st['t'] == 'script':
                ref = ctx.ref(st['s'], pre=cfg, texts=texts)
                check_script(ctx, st, got, ref, 'history', vs, texts,
                             st['s'], 'step %d, ' % k)
                if 'label' in st:
                    kept[st['label']] = (st, got)
                ctx.fault('script_after_printing', k > 0)
            elif st['t'] == 'reprint' and st['label'] in kept:
                s = kept[st['label']][0]
                want = ctx.ref_session(cfg + [s, st],
                                       texts=texts)['steps'][-1]
                ctx.probe('reprinted_values', len(got['reprint']))
                for i, (a, b) in enumerate(zip(want['reprint'],
                                               got['reprint'])):
                    if a != b:
                        vs.append(Violation('reprint', (
                            'step %d: printing an earlier result again gives '
                            'another text than in a pristine process' % k) + (
                            '\n   reference: %s\n   here:      %s' % (
                                want['rtexts'][i], got['rtexts'][i])
                            if texts else '')))
                        break
            elif st['t'] == 'recheck' and st['label'] in kept:
                s, was = kept[st['label']]
                bad = compare(was['out'], got['out'])
                if bad:
                    vs.append(Violation('object-changed', (
                        'step %d: an earlier result changed: ' % k)
                        + first_diff(ctx, s['s'], was['out'], got['out'],
                                     bad[0], was.get('texts'),
                                     got.get('texts'))))
            if vs:
                break
        return vs, {'sig': digest([res, steps]), 'nontrivial': len(steps) > 1}
