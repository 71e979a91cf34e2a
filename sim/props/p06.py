from .common import *
from .. import config


class PROP(Prop):
    id = 'P06'
    quick = 700
    thorough = 14000
    rule = ('A run is one process in which printing is configured by a '
            'random sequence of permanent (init_printing) and scoped '
            '(configure_printing) calls, nested, repeated, valid or '
            'rejected, scopes being left normally or by an injected '
            'exception. After every step printing scripts must give the '
            'outcome of a pristine process in which only the effective '
            'configuration calls were made, permanently. Non-trivial: a '
            'script ran after a rejected call or after a scope was left.')
    assumptions = ['scopes are left in LIFO order']

    def gen(self, rng, i):
        fam = [config.any_probe(rng) for _ in range(3)]
        if rng.random() < 0.5:
            fam += family(rng, {'printing': 3.0}, bases=1, siblings=1)
        if rng.random() < 0.1:
            fam.append([config.prefill(rng)])
        steps, stack = [], []
        nid = 0
        labels = []

        def script():
            st = {'t': 'script', 's': rng.choice(fam)}
            if rng.random() < 0.5:
                st['label'] = 'L%d' % len(labels)
                labels.append(st['label'])
            return st

        if rng.random() < 0.5:
            steps.append(script())
        for _ in range(rng.choice([3, 5, 8, 12])):
            z = rng.random()
            if labels and rng.random() < 0.25:
                steps.append({'t': 'reprint', 'label': rng.choice(labels),
                              'fns': rng.sample(['str', 'repr', 'ascii',
                                                 'unicode', 'latex', 'srepr',
                                                 'tree'], 3)})
            elif z < 0.2:
                steps.append({'t': 'init_printing', 'kw': config.good(rng)})
            elif z < 0.3:
                steps.append({'t': 'init_printing', 'kw': config.bad(rng)})
            elif z < 0.5 and len(stack) < 4:
                nid += 1
                kw = config.good(rng) if rng.random() < .75 \
                    else config.bad(rng)
                steps.append({'t': 'enter', 'cm': 'printing', 'id': nid,
                              'kw': kw})
                stack.append(nid)
            elif z < 0.72 and stack:
                st = {'t': 'exit', 'id': stack.pop()}
                if rng.random() < 0.4:
                    st['exc'] = rng.choice(['ValueError', 'KeyboardInterrupt',
                                            'GeneratorExit', 'MemoryError'])
                steps.append(st)
            else:
                steps.append(script())
        while stack:
            if rng.random() < 0.3:
                steps.append({'t': 'script', 's': rng.choice(fam)})
            steps.append({'t': 'exit', 'id': stack.pop()})
        steps.append({'t': 'script', 's': config.probe(rng, 6)})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs = []
        eff = []            # effective permanent calls
        stack = []          # (id, eff before)
        touched = 0
        kept = {}
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            if st['t'] in ('init_printing', 'enter'):
                call = {'t': 'init_printing', 'kw': st.get('kw', {})}
                want = ctx.ref_session(eff + [call])['steps'][-1]['init']
                have = got.get('init', got.get('enter'))
                if want != have:
                    vs.append(Violation('config', (
                        'step %d: configuring gave %s, in a pristine process '
                        'with the same configuration %s' % (k, have, want))))
                    break
                if have == 'ok':
                    if st['t'] == 'enter':
                        stack.append((st['id'], eff))
                        ctx.fault('scoped_configuration')
                    else:
                        ctx.fault('permanent_configuration')
                    eff = eff + [call]
                else:
                    touched += 1
                    ctx.fault('rejected_configuration')
            elif st['t'] == 'exit':
                if got['exit'] == 'none':
                    continue
                if got['exit'] != 'ok':
                    vs.append(Violation('scope', 'step %d: leaving the scope '
                                        'gave %s' % (k, got['exit'])))
                    break
                if stack and stack[-1][0] == st['id']:
                    eff = stack.pop()[1]
                    touched += 1
                if st.get('exc'):
                    ctx.fault('scope_exit_by_' + st['exc'])
            elif st['t'] == 'reprint':
                if st['label'] not in kept:
                    continue
                s = dict(kept[st['label']])
                want = ctx.ref_session(eff + [s, st], texts=texts)['steps'][-1]
                for i, (a, b) in enumerate(zip(want['reprint'],
                                               got['reprint'])):
                    if a != b:
                        vs.append(Violation('reprint', (
                            'step %d (configuration %s): printing an earlier '
                            'result again gives another text than in a '
                            'pristine process with this configuration' % (
                                k, [c['kw'] for c in eff])) + (
                            '\n   reference: %s\n   here:      %s' % (
                                want['rtexts'][i], got['rtexts'][i])
                            if texts else '')))
                        break
                ctx.probe('reprinted_values', len(got['reprint']))
            elif st['t'] == 'script':
                if 'label' in st:
                    kept[st['label']] = st
                ref = ctx.ref(st['s'], pre=eff, texts=texts)
                check_script(ctx, st, got, ref, 'printing', vs, texts,
                             st['s'], 'step %d (configuration %s), ' % (
                                 k, [c['kw'] for c in eff]))
            if vs:
                break
        return vs, {'sig': digest([res['steps'], steps]),
                    'nontrivial': touched > 0}
