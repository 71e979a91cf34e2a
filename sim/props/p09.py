from .common import *
from .. import config
from . import p08
from .p08 import gen_picks


class PROP(p08.PROP):
    id = 'P09'
    sympy = True
    quick = 900
    thorough = 20000
    rule = ('A run is one process with a random printing configuration (or '
            'none: the first printing then initialises it) in which two to '
            'four cooperative threads print in all formats, with settings '
            'and caller caches, under a seeded schedule as in P08 '
            '(preemptions also inside the SymPy printing modules QNET\'s '
            'printers inherit from); afterwards the scripts run again '
            'sequentially. Every text must equal that of the script alone '
            'in a pristine process with the same configuration. Non-trivial: '
            'at least one preemption took place.')

    def family(self, rng):
        fam = [config.probe(rng, wild=True) for _ in range(2)]
        fam += family(rng, {'printing': 4.0}, bases=1, siblings=1)
        rng.shuffle(fam)
        # h.sympy_print calls sympy.pretty, whose unicode flag is one global
        # variable of sympy: not a matter of this library
        return [without(without(s, 'rewrite_with_operator_pm_cc'),
                        'h.sympy_print') for s in fam]

    def setup(self, rng):
        steps = []
        if rng.random() < 0.5:
            steps = [{'t': 'init_printing', 'kw': config.good(rng)}]
        return steps

    def gen(self, rng, i):
        if rng.random() < 0.55:
            case = self.gen_zoo(rng)
        else:
            case = super().gen(rng, i)
        if rng.random() < 0.25:
            s = [config.prefill(rng) for _ in range(rng.choice([1, 2]))]
            case['steps'].insert(case['setup'], {'t': 'script', 's': s})
        return case

    def gen_zoo(self, rng):
        """threads print the same special expressions, or expressions of
        the same form with other labels, created before, in the same
        formats, in different orders"""
        steps = self.setup(rng)
        pre = len(steps)
        n = rng.choice([2, 2, 3])
        if rng.random() < 0.4:
            ops, own = config.zoo_variants(rng, n)
        else:
            ops, e = config.zoo(rng, rng.choice([1, 2, 3, 5]))
            own = [e] * n
        fmts = rng.sample(config.FORMATS[:3], rng.choice([1, 1, 2]))
        if rng.random() < 0.3:
            fmts += rng.sample(config.FORMATS, 1)
        bodies = [ops + config.zoo_prints(rng, e, fmts) for e in own]
        steps.append({'t': 'threads', 'first': rng.randrange(n),
                      'sympy': True, 'bodies': bodies, 'shared': len(ops),
                      'picks': gen_picks(rng, n)})
        steps.append({'t': 'script', 's': rng.choice(bodies)})
        return {'setup': pre, 'steps': steps}

    def fixed_cases(self):
        return []
