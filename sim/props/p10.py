from .common import *


def one_symbol_per_name(script):
    """SymPy orders symbols of the same name but different assumptions by
    hash; here a name always means the same symbol"""
    out = []
    for op in script:
        if op['f'] in ('Symbol', 'h.idxsym'):
            name = op['a'][0]
            kw = dict(op.get('k') or {})
            kw = {'primed': kw['primed']} if 'primed' in kw else {}
            if op['f'] == 'Symbol' and name in ('t', 'g'):
                kw = {'positive': True}
            op = dict(op, k=kw)
        out.append(op)
    return out


class PROP(Prop):
    id = 'P10'
    quick = 1500
    thorough = 30000
    rule = ('A run executes the same client scripts in simulated processes '
            'that differ in PYTHONHASHSEED (order of sets of strings) and in '
            'the hashes of all classes (in reality: their addresses; order '
            'of sets of expressions). All outcomes, including canonical '
            'order and printed text, must be the same. Non-trivial: at least '
            'one result is a compound expression.')
    assumptions = [
        'the two sources of order are the hash seed and class hashes; other '
        'objects hashed by address (functions) are not varied']
    nenv = {'quick': 4, 'thorough': 12}

    def environments(self, seed, tier):
        rng = run_rng('P10-envs', seed)
        self.list = [('0', '0')] + [
            (str(rng.randrange(1, 4000000000)), str(rng.randrange(1, 10 ** 6)))
            for _ in range(self.nenv[tier] - 1)]
        return self.list

    def gen(self, rng, i):
        fam = [one_symbol_per_name(s) for s in family(
            rng, {'printing': 0.6, 'wide': rng.choice([1, 2, 12])}, bases=1, siblings=1)]
        if rng.random() < 0.5:
            fam[-1:] = [one_symbol_per_name(
                gen.only(rng, 'wide', n=rng.choice([1, 2])))]
        envs = [list(e) for e in rng.sample(self.list[1:], 2)]
        return {'envs': [['0', '0']] + envs,
                'steps': [{'t': 'script', 's': s} for s in fam]}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        outs = []
        for e in case['envs']:
            outs.append(ctx.session(steps, env=tuple(e), texts=texts)['steps'])
        vs = []
        ref = outs[0]
        size = 0
        for e, got in zip(case['envs'][1:], outs[1:]):
            for st, r, g in zip(steps, ref, got):
                size += len(r['out'])
                if not vs:
                    check_script(ctx, st, g, r, 'environment', vs, texts,
                                 st['s'], 'hash seed and salt %s: ' % e)
        ctx.probe('environment_changes', len(outs) - 1)
        return vs, {'sig': digest(steps), 'nontrivial': size > 0}
