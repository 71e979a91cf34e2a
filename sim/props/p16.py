from .common import *
from .. import config, dsl, gen

PRINTING = dsl.PRINTS | {'h.str', 'h.repr', 'h.eq_str', 'h.repr_latex',
                         'h.srepr_eval', 'dotprint_opt', 'srepr_ind',
                         'h.tree_str_opt'}
LOG = [{'on': True, 'nomatch': True}, {'on': True}, {'on': False}]


class PROP(Prop):
    id = 'P16'
    quick = 1300
    thorough = 26000
    rule = ('A run is one process in which printing is configured (also '
            'temporarily, with custom printers and formats, and with rejected '
            'configurations) and debug logging is switched on and off, at '
            'random moments between client scripts that do algebra only, or '
            'after scripts that print; the outcome of every algebraic script '
            'must be that in a pristine process with the default '
            'configuration. Non-trivial: a configuration other than the '
            'default was in force or logging was on during a script.')
    assumptions = ['a printing configuration is one that init_printing or '
                   'configure_printing accepts']

    def gen(self, rng, i):
        fam = family(rng, {'printing': 0, 'wide': rng.choice([1, 1, 12])},
                     bases=rng.choice([1, 2]),
                     siblings=rng.choice([1, 2, 3]))
        fam = [without(s, *PRINTING) for s in fam]
        if rng.random() < 0.3:
            fam.append(config.zoo(rng)[0])
        if rng.random() < 0.3:
            fam.append(gen.only(rng, 'wide_label', 'wide_order', 'wide',
                                n=rng.choice([1, 1, 2])))
        prt = [config.any_probe(rng, wild=True)]
        steps, stack, nid = [], [], 0
        for _ in range(rng.choice([3, 5, 8])):
            z = rng.random()
            if z < 0.15:
                steps.append({'t': 'init_printing', 'kw': config.good(rng)})
            elif z < 0.2:
                steps.append({'t': 'init_printing', 'kw': config.bad(rng)})
            elif z < 0.35 and len(stack) < 3:
                nid += 1
                stack.append(nid)
                steps.append({'t': 'enter', 'cm': 'printing', 'id': nid,
                              'kw': config.good(rng)})
            elif z < 0.42 and stack:
                steps.append({'t': 'exit', 'id': stack.pop()})
            elif z < 0.55:
                steps.append(dict(rng.choice(LOG), t='log'))
            elif z < 0.62:
                steps.append({'t': 'script', 's': prt[0], 'print': True})
            else:
                steps.append({'t': 'script', 's': rng.choice(fam)})
        steps.append({'t': 'script', 's': rng.choice(fam)})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs = []
        conf = n = 0
        scoped, log = set(), False
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            if st['t'] == 'init_printing':
                conf += got['init'] == 'ok'
                ctx.fault('configuration' if got['init'] == 'ok' else
                          'rejected_configuration')
            elif st['t'] == 'enter' and got['enter'] == 'ok':
                scoped.add(st['id'])
                ctx.fault('scoped_configuration')
            elif st['t'] == 'exit':
                scoped.discard(st['id'])
            elif st['t'] == 'log':
                log = bool(st.get('on'))
                ctx.fault('logging_on', log)
            elif st['t'] == 'script' and not st.get('print'):
                n += bool(conf or scoped or log)
                ref = ctx.ref(st['s'], texts=texts)
                if check_script(ctx, st, got, ref, 'configuration', vs, texts,
                                st['s'], 'step %d, ' % k):
                    break
        return vs, {'sig': digest([res['steps'], steps]), 'nontrivial': n > 0}
