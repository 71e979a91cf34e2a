from .common import *

RULES = {       # user rules that make sense for a class
    'OperatorTimes': ['times_X', 'times_X2', 'times_swap', 'ident'],
    'ScalarTimesOperator': ['scal2', 'scal2b', 'ident'],
    'Commutator': ['comm_zero', 'comm_sym', 'ident'],
    'BraKet': ['braket1', 'braket0', 'ident'],
    'OperatorTrace': ['trace_tr', 'trace_one'],
    'ScalarTimesKet': ['ident'], 'TensorKet': ['ident', 'tensor_Z'],
    'KetBra': ['ident', 'ketbra_Z'], 'OperatorTimesKet': ['ident', 'opket_Z', 'opket_Y'],
    'SuperOperatorTimes': ['ident', 'sop_X', 'sop_X2'],
    'SeriesProduct': ['ident', 'series_Y', 'series_Y2'],
    'Concatenation': ['ident', 'concat_Y', 'concat_Y2'], 'Adjoint': [], 'SPre': [],
    'OperatorPlus': ['plus_pair'],
}
SIMP = {'OperatorPlus': ['to_zero', 'reverse'],
        'OperatorTimes': ['to_zero', 'reverse'],
        'KetPlus': ['reverse'], 'Concatenation': ['reverse']}
OTHER = ['OperatorSymbol', 'LocalSigma', 'Operation', 'Expression', 'KetPlus',
         'ProductSpace', 'Bra', 'ScalarTimes', 'QuantumTimes', 'Operator',
         'NullSpaceProjector', 'ScalarIndexedSum', 'OperatorIndexedSum']
BUILTIN = ['R%03d' % i for i in range(1, 10)]


class PROP(Prop):
    id = 'P05'
    quick = 600
    thorough = 12000
    rule = ('A run is one process in which nested temporary-rules scopes '
            '(also caching scopes) are entered and left, normally or by an '
            'injected exception; rules of the named classes are added, '
            'deleted (one, several, all, non-existing) or cleared, user '
            'simplifications are added; after every step client scripts and '
            'the lists of active rules must equal those of a pristine '
            'process configured directly to the rule state of the model. '
            'Non-trivial: a script ran inside a rules scope or after one was '
            'left.')
    assumptions = ['rules are edited only for classes named by the innermost '
                   'scope; the list of simplifications only before anything '
                   'is created in that scope']

    def probe_script(self, rng):
        """small scripts that hit the user rules, plus the rule lists"""
        s = self.leaves()
        ops = self.calls()
        for _ in range(rng.choice([1, 2, 3])):
            s.append(rng.choice(ops))
        for _ in range(2):
            s.append({'f': rng.choice(['h.rules', 'h.rules',
                                       'h.simplifications', 'h.show_rules']),
                      'a': [rng.choice(sorted(RULES))]})
        return s

    def leaves(self):
        return [{'f': 'OperatorSymbol', 'a': ['A'], 'k': {'hs': 0}},
                {'f': 'OperatorSymbol', 'a': ['B'], 'k': {'hs': 0}},
                {'f': 'BasisKet', 'a': [0], 'k': {'hs': 0}},
                {'f': 'CircuitSymbol', 'a': ['C'], 'k': {'cdim': 1}},
                {'f': 'CircuitSymbol', 'a': ['D'], 'k': {'cdim': 1}},
                {'f': 'SuperOperatorSymbol', 'a': ['S'], 'k': {'hs': 0}},
                {'f': 'SuperOperatorSymbol', 'a': ['T'], 'k': {'hs': 0}},
                {'f': 'BasisKet', 'a': [1], 'k': {'hs': 1}}]

    def calls(self):
        return [
            {'f': 'op.mul', 'a': [['$', 0], ['$', 1]]},
            {'f': 'op.mul', 'a': [['$', 1], ['$', 0]]},
            {'f': 'op.mul', 'a': [2, ['$', 0]]},
            {'f': 'op.add', 'a': [['$', 0], ['$', 1]]},
            {'f': 'Commutator.create', 'a': [['$', 0], ['$', 1]]},
            {'f': 'BraKet.create', 'a': [['$', 2], ['$', 2]]},
            {'f': 'op.mul', 'a': [['$', 0], ['$', 2]]},
            {'f': 'tr', 'a': [['$', 0]], 'k': {'over_space': 0}},
            {'f': 'rewrite_with_operator_pm_cc', 'a': [['$', 0]]},
            {'f': 'op.lshift', 'a': [['$', 3], ['$', 4]]},
            {'f': 'op.add', 'a': [['$', 3], ['$', 4]]},
            {'f': 'op.mul', 'a': [['$', 5], ['$', 6]]},
            {'f': 'op.mul', 'a': [['$', 2], ['$', 7]]},
            {'f': 'KetBra.create', 'a': [['$', 2], ['$', 2]]},
        ]

    HITS = {        # a call that a user rule of the class applies to
        'OperatorTimes': [0, 0, 1], 'ScalarTimesOperator': [2],
        'OperatorPlus': [3], 'Commutator': [4], 'BraKet': [5],
        'OperatorTimesKet': [6], 'OperatorTrace': [7],
        'SeriesProduct': [9], 'Concatenation': [10],
        'SuperOperatorTimes': [11], 'TensorKet': [12], 'KetBra': [13],
    }

    def burst(self, rng, cls):
        """a rule is replaced by another one, before and after use"""
        full = self.leaves() + self.calls()
        hit = gen.slice_to(full, len(self.leaves()) + rng.choice(
            self.HITS[cls])) if cls in self.HITS else self.probe_script(rng)
        rules = RULES[cls]
        out = []
        name = rng.choice(['U1', 'U1', 'R001', 'R002'])
        rule = None
        for n in range(rng.choice([2, 2, 3])):
            if n or rng.random() < .4:
                if rng.random() < .75:
                    out.append({'t': 'rule', 'op': 'del', 'cls': cls,
                                'names': [name]})
                else:
                    out.append({'t': 'rule', 'op': 'clear', 'cls': cls})
            rule = rng.choice([x for x in rules if x != rule] or rules)
            out.append({'t': 'rule', 'op': 'add', 'cls': cls, 'name': name,
                        'rule': rule})
            if rng.random() < .85:
                out.append({'t': 'script', 's': hit})
            if rng.random() < .3:
                out.append({'t': 'script', 's': [
                    {'f': 'h.rules', 'a': [cls]}]})
        return out

    def gen(self, rng, i):
        fam = family(rng, {'printing': 0}, bases=rng.choice([1, 2]),
                     siblings=rng.choice([0, 2]))
        fam += [self.probe_script(rng) for _ in range(3)]
        steps, stack = [], []
        nid = 0
        for _ in range(rng.choice([5, 8, 12, 16])):
            z = rng.random()
            if z < 0.25 and len(stack) < 4:
                nid += 1
                if stack and rng.random() < 0.2:
                    sc = {'cm': rng.choice(['nocache', 'cache']),
                          'classes': [rng.choice(sorted(RULES) + OTHER)]}
                else:
                    cl = [rng.choice(sorted(RULES)) if rng.random() < .8
                          else rng.choice(OTHER)
                          for _ in range(rng.choice([1, 1, 2, 3]))]
                    if rng.random() < 0.15:
                        cl.append(cl[0])
                    sc = {'cm': 'rules', 'classes': cl,
                          'clear': rng.random() < 0.25}
                sc.update(t='enter', id=nid)
                stack.append(sc)
                steps.append(sc)
                if sc['cm'] == 'rules' and rng.random() < 0.25:
                    cs = [c for c in sc['classes'] if c in SIMP]
                    if cs:
                        c = rng.choice(cs)
                        steps.append({'t': 'rule', 'op': 'simp', 'cls': c,
                                      'rule': rng.choice(SIMP[c])})
            elif z < 0.42 and stack:
                sc = stack.pop()
                st = {'t': 'exit', 'id': sc['id']}
                if rng.random() < 0.4:
                    st['exc'] = rng.choice(['ValueError', 'KeyboardInterrupt',
                                            'GeneratorExit', 'MemoryError'])
                steps.append(st)
            elif z < 0.62 and stack and stack[-1]['cm'] == 'rules':
                c = rng.choice(stack[-1]['classes'])
                y = rng.random()
                if y < 0.45 and RULES.get(c):
                    steps += self.burst(rng, c)
                elif y < 0.65 and RULES.get(c):
                    steps.append({'t': 'rule', 'op': 'add', 'cls': c,
                                  'name': rng.choice(['U1', 'U2', 'R001']),
                                  'rule': rng.choice(RULES[c])})
                elif y < 0.85:
                    names = [rng.choice(BUILTIN + ['U1'])
                             for _ in range(rng.choice([1, 1, 2]))]
                    steps.append({'t': 'rule', 'op': 'del', 'cls': c,
                                  'names': names})
                else:
                    steps.append({'t': 'rule', 'op': 'clear', 'cls': c})
            else:
                steps.append({'t': 'script', 's': rng.choice(fam)})
        while stack:
            steps.append({'t': 'exit', 'id': stack.pop()['id']})
        steps.append({'t': 'script', 's': self.probe_script(rng)})
        steps.append({'t': 'script', 's': rng.choice(fam)})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs = []
        stack = []      # model: per open scope the steps that configure it
        touched = 0
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            if st['t'] == 'enter':
                if got['enter'] != 'ok':
                    vs.append(Violation('scope', 'step %d: entering the scope '
                                        'failed: %s' % (k, got['enter'])))
                    break
                if st['cm'] == 'rules':
                    stack.append((st['id'], [
                        {'t': 'rule', 'op': 'own', 'cls': c,
                         'clear': bool(st.get('clear'))}
                        for c in st['classes']], st['classes']))
                else:
                    stack.append((st['id'], [], ()))
                ctx.fault('scope_' + st['cm'])
            elif st['t'] == 'exit':
                if got['exit'] != 'ok':
                    vs.append(Violation('scope', 'step %d: leaving the scope '
                                        'gave %s' % (k, got['exit'])))
                    break
                if stack and stack[-1][0] == st['id']:
                    stack.pop()
                    touched += 1
                if st.get('exc'):
                    ctx.fault('scope_exit_by_' + st['exc'])
            elif st['t'] == 'rule':
                pre = [s for _, l, _ in stack for s in l]
                if not (stack and st['cls'] in stack[-1][2]):
                    # (a minimised case) outside what the property covers
                    raise Skipped('rule edit outside a scope')
                want = ctx.ref_session(pre + [st])['steps'][-1]
                if want != got:
                    vs.append(Violation('rule-edit', (
                        'step %d: the rule edit gave %s, in a process '
                        'configured directly %s' % (k, got, want))))
                    break
                stack[-1][1].append(st)
                ctx.fault('rule_' + st['op'])
            elif st['t'] == 'script':
                pre = [s for _, l, _ in stack for s in l]
                ref = ctx.ref(st['s'], pre=pre, texts=texts)
                check_script(ctx, st, got, ref, 'rules', vs, texts, st['s'],
                             'step %d (scopes open: %d), ' % (k, len(stack)))
                touched += bool(stack)
            if vs:
                break
        return vs, {'sig': digest([res['steps'], steps]),
                    'nontrivial': touched > 0}
