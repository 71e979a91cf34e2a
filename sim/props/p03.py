from .common import *


class PROP(Prop):
    id = 'P03'
    quick = 1500
    thorough = 30000
    rule = ('A run is one process in which a client script is cut short by an '
            'exception (KeyboardInterrupt, MemoryError, RecursionError, '
            'SystemExit) injected at a chosen function entry, source line or '
            'function return inside the library; the position is drawn '
            'uniformly over the code locations the script reaches. Then the '
            'same script, near-miss siblings and unrelated scripts are run '
            'and must give the outcomes of a pristine process, and '
            'everything produced before the fault must be unchanged. '
            'Non-trivial: the fault fired.')
    assumptions = [
        'no exception is injected while a scope is being entered or left, or '
        'printing is being configured (no pure-Python code survives that), '
        'nor inside C code or third-party libraries']

    def gen(self, rng, i):
        prof = {'printing': 2.0 if rng.random() < 0.35 else 0}
        fam = family(rng, prof, bases=2, siblings=2)
        base = fam[0]
        steps = []
        if rng.random() < 0.4:
            steps.append({'t': 'script', 's': rng.choice(fam),
                          'label': 'before'})
        for _ in range(rng.choice([1, 1, 2, 3])):
            picks = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                p = {'r': rng.random(), 'o': rng.random(),
                     'exc': rng.choice([
                         'KeyboardInterrupt', 'KeyboardInterrupt',
                         'MemoryError', 'MemoryError',
                         'RecursionError', 'SystemExit'])}
                if rng.random() < 0.4:
                    p.update(hot=rng.choice([1, 2, 2]), f=rng.random())
                picks.append(p)
            steps.append({'t': 'fault', 's': base, 'picks': picks})
            base = rng.choice(fam)
        steps.append({'t': 'script', 's': fam[0]})
        for _ in range(rng.choice([1, 2])):
            steps.append({'t': 'script', 's': rng.choice(fam)})
        if steps[0].get('label'):
            steps.append({'t': 'recheck', 'label': 'before'})
        steps.append({'t': 'hashes'})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs = []
        fired = 0
        new = []
        labels = {}
        sig = []
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            if st['t'] == 'fault':
                f = got['fired']
                fired += len(f)
                for x in f:
                    ctx.fault(x[1])
                    sig.append(x[2] + x[1])
                new.append(dict(st, picks=got.get('picks', [])))
                if vs:
                    continue
                ref = ctx.ref(st['s'], texts=texts)
                # CPython's OrderedDict turns an exception raised by __hash__
                # into a KeyError
                allow = {'skip', '!KeyError'} | {'!' + x[1] for x in f}
                bad = compare(ref['out'], got['out'],
                              allow if f else ())
                if bad:
                    vs.append(Violation('during-fault', (
                        'step %d, faults fired %s: ' % (k, f)) + first_diff(
                            ctx, st['s'], ref['out'], got['out'], bad[0],
                            ref.get('texts'), got.get('texts'))))
                continue
            new.append(st)
            if vs:
                continue
            if st['t'] == 'script':
                ref = ctx.ref(st['s'], texts=texts)
                check_script(ctx, st, got, ref, 'after-fault', vs, texts,
                             st['s'], 'step %d, ' % k)
                if 'label' in st:
                    labels[st['label']] = (st['s'], got)
            elif st['t'] == 'hashes' and got['bad']:
                vs.append(Violation('hash', got['bad'][0]))
            elif st['t'] == 'recheck' and st['label'] in labels:
                s, was = labels[st['label']]
                bad = compare(was['out'], got['out'])
                if bad:
                    vs.append(Violation('changed-by-fault', first_diff(
                        ctx, s, was['out'], got['out'], bad[0],
                        was.get('texts'), got.get('texts'))))
        ctx.probe('runs_with_fault', fired > 0)
        ctx.probe('distinct_fault_locations', 0)
        return vs, {'sig': digest(sig), 'nontrivial': fired > 0,
                    'resolved': {'steps': new}}

    def shrink(self, case):
        steps = case['steps']
        for i, st in enumerate(steps):
            if len(st.get('picks', ())) > 1:
                for j in range(len(st['picks'])):
                    ns = dict(st, picks=st['picks'][:j] + st['picks'][j + 1:])
                    yield {'steps': steps[:i] + [ns] + steps[i + 1:]}
        yield from super().shrink(case)
