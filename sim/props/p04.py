from .common import *


class PROP(Prop):
    id = 'P04'
    quick = 600
    thorough = 12000
    rule = ('A run is one process in which client scripts hand lists, dicts '
            'and arrays to the library and keep every result; then unrelated '
            'and near-miss scripts run, scopes are entered and left, and the '
            'client overwrites every mutable container it passed in or got '
            'back. After each such event all earlier results are examined '
            'again (structure and hash) and the scripts are run again '
            'against the pristine reference. Non-trivial: at least one '
            'container was overwritten or one script came in between.')
    assumptions = ['the array returned by Matrix.matrix is the storage of '
                   'the matrix and is not overwritten by the client']

    def gen(self, rng, i):
        prof = {'printing': 1.0 if rng.random() < .3 else 0}
        fam = family(rng, prof, bases=rng.choice([1, 2, 3]),
                     siblings=rng.choice([1, 3]))
        steps = []
        labels = []
        for k in range(rng.choice([2, 3, 5])):
            lab = 'L%d' % k
            labels.append(lab)
            steps.append({'t': 'script', 's': rng.choice(fam), 'label': lab,
                          'hashes': True, 'capture': True})
            z = rng.random()
            if z < 0.35:
                steps.append({'t': 'vandalise', 'labels': [
                    l for l in labels if rng.random() < 0.7] or labels[:1]})
            elif z < 0.5:
                steps.append({'t': 'script', 's': rng.choice(fam)})
            elif z < 0.6:
                sid = 100 + k
                steps += [{'t': 'enter', 'id': sid,
                           'cm': rng.choice(['nocache', 'cache', 'rules']),
                           'classes': ['OperatorPlus', 'OperatorTimes']},
                          {'t': 'script', 's': rng.choice(fam)},
                          {'t': 'exit', 'id': sid}]
            if rng.random() < 0.5:
                steps.append({'t': 'recheck', 'label': rng.choice(labels)})
        steps.append({'t': 'vandalise', 'labels': labels})
        for lab in labels:
            steps.append({'t': 'recheck', 'label': lab})
        for _ in range(2):
            steps.append({'t': 'script', 's': rng.choice(fam)})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        from .. import dsl
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs = []
        kept = {}
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            if st['t'] == 'script':
                if got.get('inputs_changed'):
                    vs.append(Violation('input-modified', (
                        'step %d: the library modified %d container(s) it '
                        'was given: %s' % (k, len(got['inputs_changed']),
                                           got['inputs_changed'][0]))))
                    break
                ref = ctx.ref(st['s'], texts=texts)
                check_script(ctx, st, got, ref, 'later-run', vs, texts,
                             st['s'], 'step %d, ' % k)
                if 'label' in st:
                    kept[st['label']] = (st['s'], got)
            elif st['t'] == 'recheck' and st['label'] in kept:
                s, was = kept[st['label']]
                bad = compare(was['out'], got['out'], ('gone',))
                if bad:
                    vs.append(Violation('object-changed', (
                        'step %d: result of %s changed after it was '
                        'returned: ' % (k, st['label'])) + first_diff(
                            ctx, s, was['out'], got['out'], bad[0],
                            was.get('texts'), got.get('texts'))))
                elif got.get('hash_changed'):
                    i = got['hash_changed'][0]
                    vs.append(Violation('hash-changed', (
                        'step %d: the hash of operation %s changed' % (
                            k, dsl.fmt_script(s)[i]))))
                ctx.probe('rechecked_values', len(got['out']))
            elif st['t'] == 'vandalise':
                ctx.fault('client_overwrites_container', got['vandalised'])
            if vs:
                break
        return vs, {'sig': digest([res['steps'], steps]),
                    'nontrivial': True}
