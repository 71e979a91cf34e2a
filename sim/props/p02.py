from .common import *


class PROP(Prop):
    id = 'P02'
    quick = 700
    thorough = 12000
    rule = ('A run is one process whose client enters and leaves (normally or '
            'by an exception of an injected kind) nested caching scopes, on '
            'random sets of classes, around scripts that share many '
            'sub-expressions; each outcome must equal the outcome of the '
            'script alone in a pristine process, and object identity must '
            'follow the model "one cache per live scope". Non-trivial: at '
            'least one scope was active during a script.')
    assumptions = ['scopes are left in LIFO order, as `with` does',
                   'exact numbers only (no mixing of 2 and 2.0)']
    CLASSES = ['Expression', 'Operation', 'OperatorPlus', 'OperatorTimes',
               'ScalarTimesOperator', 'OperatorSymbol', 'LocalSigma',
               'KetPlus', 'TensorKet', 'ScalarTimesKet', 'BraKet', 'Bra',
               'SeriesProduct', 'Concatenation', 'Feedback', 'Adjoint',
               'Commutator', 'OperatorTrace', 'SPre', 'SPost',
               'SuperOperatorPlus', 'SuperOperatorTimes', 'ProductSpace',
               'LocalSpace', 'OperatorIndexedSum', 'KetIndexedSum',
               'ScalarTimes', 'ScalarPlus', 'ScalarValue', 
               'CPermutation', 'CircuitSymbol', 'OperatorDerivative',
               'QuantumDerivative', 'Operator', 'State']

    def scope(self, rng, ident):
        if rng.random() < 0.3:
            return {'cm': 'nocache'}
        if ident:
            return {'cm': 'cache', 'classes': ['Expression'] *
                    rng.choice([1, 1, 2])}
        cl = [rng.choice(self.CLASSES)
              for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if rng.random() < 0.25:
            cl.append(rng.choice(cl))
        if rng.random() < 0.3:
            cl.append('Expression')
            rng.shuffle(cl)
        return {'cm': rng.choice(['cache', 'cache', 'cache', 'rules']),
                'classes': cl}

    def gen(self, rng, i):
        fam = family(rng, {'printing': 0}, bases=rng.choice([1, 2]),
                     siblings=rng.choice([0, 2, 3]))
        ident = rng.random() < 0.45
        if rng.random() < 0.25:
            fam[rng.randrange(len(fam))] = gen.only(rng, 'wide_scalars')
        steps = []
        stack = []
        nid = [0]
        labels = []
        for _ in range(rng.choice([5, 8, 12])):
            z = rng.random()
            if z < 0.3 and len(stack) < 4:
                sc = self.scope(rng, ident)
                nid[0] += 1
                sc.update(t='enter', id=nid[0])
                stack.append(sc)
                steps.append(sc)
            elif z < 0.55 and stack:
                sc = stack.pop()
                st = {'t': 'exit', 'id': sc['id']}
                if rng.random() < 0.4:
                    st['exc'] = rng.choice(['ValueError', 'KeyboardInterrupt',
                                            'GeneratorExit', 'MemoryError'])
                steps.append(st)
            elif ident and labels and rng.random() < 0.5:
                l, s = rng.choice(labels)
                steps.append({'t': rng.choice(['again', 'again', 'cross']),
                              'label': l, 's': s})
            else:
                s = rng.choice(fam)
                st = {'t': 'script', 's': s}
                if ident:
                    st['label'] = 'L%d' % len(steps)
                    labels.append((st['label'], s))
                steps.append(st)
        while stack:
            steps.append({'t': 'exit', 'id': stack.pop()['id']})
        steps.append({'t': 'script', 's': fam[0]})
        if ident and labels:
            l, s = labels[0]
            steps.append({'t': 'again', 'label': l, 's': s})
            steps.append({'t': 'cross', 'label': labels[-1][0], 's': s})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs = []
        # model: the stack of live caches; a cache is a fresh object
        stack = []
        cur = 'base'
        held, crossed = {}, {}
        depth = 0
        inside = 0
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            if st['t'] == 'enter':
                if got['enter'] != 'ok':
                    vs.append(Violation('scope', 'step %d: entering the scope '
                                        'failed: %s' % (k, got['enter'])))
                    break
                stack.append(cur)
                if st['cm'] == 'nocache':
                    cur = 'none'
                elif cur != 'none':
                    cur = 'cache%d' % st['id']
                ctx.fault('scope_' + st['cm'])
            elif st['t'] == 'exit':
                cur = stack.pop() if stack else 'base'
                if got['exit'] not in ('ok',):
                    vs.append(Violation('scope', 'step %d: leaving the scope '
                                        'gave %s' % (k, got['exit'])))
                    break
                if st.get('exc'):
                    ctx.fault('scope_exit_by_' + st['exc'])
            elif st['t'] == 'script':
                ref = ctx.ref(st['s'], texts=texts)
                check_script(ctx, st, got, ref, 'caching', vs, texts, st['s'],
                             'step %d (scopes open: %d), ' % (k, len(stack)))
                if 'label' in st:
                    held[st['label']] = (cur, st['s'])
                inside += bool(stack)
            elif st['t'] == 'cross':
                was = crossed.setdefault(st['label'], (cur, len(stack)))
                if got['same'] and (was[0] != cur or cur == 'none' and
                                    was[1] != len(stack)):
                    i, name = got['same'][0]
                    vs.append(Violation('identity', (
                        'step %d: cache at first: %s, now: %s; %s of the '
                        'result of operation %d is the same object '
                        'both times, but was no part of that result before'
                        % (k, was[0], cur, name, i))))
                ctx.probe('derived_compared', got.get('n', 0))
            elif st['t'] == 'again':
                was, s0 = held.get(st['label'], (None, None))
                if s0 != st['s']:
                    continue
                shared = was == cur and cur != 'none'
                pre = [] if shared else [{'t': 'enter', 'id': 1,
                                          'cm': 'nocache'}]
                want = ctx.ref_session(pre + [
                    {'t': 'script', 'label': 'x', 's': st['s']},
                    {'t': 'again', 'label': 'x', 's': st['s']}])
                want = want['steps'][-1]['same']
                bad = compare(want, got['same'])
                ctx.probe('identity_shared' if shared else 'identity_separate',
                          len(want))
                if bad:
                    from .. import dsl
                    vs.append(Violation('identity', (
                        'step %d: operation %s: cache at first run: %s, '
                        'cache now: %s; the second run must give %s object, '
                        'but gives %s one' % (
                            k, dsl.fmt_script(st['s'])[bad[0]], was, cur,
                            want[bad[0]], got['same'][bad[0]]))))
            if vs:
                break
        return vs, {'sig': digest([res['steps'], steps]),
                    'nontrivial': inside > 0}
