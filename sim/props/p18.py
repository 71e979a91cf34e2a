from .common import *
from .. import gen as _gen
from .p05 import RULES, SIMP, PROP as P05

EXC = ['Boom', 'Boom', 'Quit', 'AttributeError', 'AttributeError',
       'ValueError', 'ValueError', 'TypeError', 'TypeError', 'KeyError',
       'KeyError', 'IndexError', 'RuntimeError', 'StopIteration',
       'NotImplementedError', 'AssertionError', 'OSError', 'RecursionError',
       'BasisNotSetError', 'AlgebraError', 'CannotConvertToSLH',
       'KeyboardInterrupt']
#: classes whose rule tables are consulted by most scripts
TABLES = ['OperatorTimes', 'ScalarTimesOperator', 'Commutator', 'BraKet',
          'OperatorTrace', 'OperatorTimesKet', 'OperatorPlus', 'TensorKet',
          'SeriesProduct', 'ScalarTimesKet']


class PROP(Prop):
    id = 'P18'
    quick = 1200
    thorough = 30000
    rule = ('A run is one process in which client scripts call functions of '
            'the library that take user-supplied callbacks (rule '
            'replacements, pattern conditions, scalar simplification, '
            'element-wise functions, conversion and graph callbacks, rules '
            'and simplifications in the tables of temporary-rules scopes). '
            'A seeded plan makes the n-th call of a callback raise one of '
            'seventeen kinds of exceptions, or run another client script '
            '(also inside a caching scope of its own). The operation must '
            'fail with the very same exception object or, if the callback '
            'was merely re-entrant, give the result it gives in a pristine '
            'process; the inner script, all other operations and all later '
            'scripts must give their pristine results, too. Non-trivial: the '
            'plan did something.')
    assumptions = ['callbacks are pure functions when they return',
                   'StopIteration is not raised into generators',
                   'CannotSimplify is the documented signal of replacements '
                   'and is not injected']

    def script(self, rng):
        if rng.random() < 0.2:
            g = _gen.G(rng, {'printing': 0, 'templates': 0})
            g.wide_scalars(callbacks=True)
            return g.ops
        s = []
        for _ in range(6):
            s = _gen.gen_script(rng, None, {
                'printing': 0, 'callback': 14, 'templates': 0.3,
                'slow': False})
            if sum(op['f'].startswith('cb.') for op in s) > 1:
                break
        return s

    def plan(self, rng, fam):
        plan = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([0, rng.random(), rng.random()])
            if rng.random() < 0.6:
                plan[n] = {'exc': rng.choice(EXC),
                           'late': rng.random() < 0.3}
            else:
                plan[n] = {'s': rng.choice(fam)} if rng.random() < 0.5 \
                    else {'again': rng.randrange(60)}
                if rng.random() < 0.4:
                    plan[n]['on'] = True    # from here on at every call
                if rng.random() < 0.3:
                    plan[n]['scope'] = rng.choice(['nocache', 'cache'])
        return sorted(plan.items())

    def gen(self, rng, i):
        fam = [self.script(rng) for _ in range(2)]
        fam.append(_gen.mutate(rng, fam[0], rng.choice([1, 2])))
        plain = family(rng, {'printing': 0}, bases=1, siblings=1)
        steps = []
        n = 0
        for _ in range(rng.choice([1, 2, 2, 3])):
            opened = []
            if rng.random() < 0.5:
                n += 1
                cl = rng.sample(TABLES, rng.choice([1, 2, 3]))
                steps.append({'t': 'enter', 'id': n, 'cm': 'rules',
                              'classes': cl, 'clear': rng.random() < 0.15})
                opened.append(n)
                for c in cl:
                    if c in SIMP and rng.random() < 0.3:
                        steps.append({'t': 'cbrule', 'op': 'simp', 'cls': c,
                                      'rule': rng.choice(SIMP[c])})
                    steps.append({'t': 'cbrule', 'op': 'add', 'cls': c,
                                  'name': rng.choice(['U1', 'R000']),
                                  'rule': rng.choice(RULES[c] or ['ident']),
                                  'cond': rng.random() < 0.4})
            for _ in range(rng.choice([1, 1, 2])):
                # with probability 0.3 the failing script had a predecessor
                if rng.random() < 0.3:
                    steps.append({'t': 'script', 's': rng.choice(
                        fam + plain)})
                s = P05().probe_script(rng) if opened and \
                    rng.random() < 0.5 else rng.choice(fam)
                steps.append({'t': 'callbacks', 's': s,
                              'plan': self.plan(rng, fam + plain)})
                if rng.random() < 0.5:
                    steps.append({'t': 'script', 's': s})
            if opened:
                st = {'t': 'exit', 'id': n}
                if rng.random() < 0.4:
                    st['exc'] = rng.choice(['ValueError',
                                            'KeyboardInterrupt'])
                steps.append(st)
            for _ in range(rng.choice([1, 2])):
                steps.append({'t': 'script', 's': rng.choice(fam + plain)})
        steps.append({'t': 'hashes'})
        return {'steps': steps}

    def evaluate(self, case, ctx, texts=False):
        steps = case['steps']
        res = ctx.session(steps, texts=texts)
        vs = []
        acted = 0
        sig = []
        pre = []
        new = []
        for st, got in zip(steps, res['steps']):
            if st['t'] == 'callbacks':
                st = dict(st, plan=got['plan'])
            new.append(st)
        for k, (st, got) in enumerate(zip(steps, res['steps'])):
            if vs:
                break
            if st['t'] == 'enter':
                if got['enter'] != 'ok':
                    vs.append(Violation('scope', 'entering: %s' % got))
                pre = [{'t': 'rule', 'op': 'own', 'cls': c,
                        'clear': bool(st.get('clear'))}
                       for c in st['classes']]
            elif st['t'] == 'exit':
                if got['exit'] != 'ok':
                    vs.append(Violation('scope', 'leaving: %s' % got))
                pre = []
            elif st['t'] == 'cbrule':
                if not pre:
                    raise Skipped('rule edit outside a scope')
                pre = pre + [st]
                if got['rule'] not in ('ok', '!ValueError'):
                    vs.append(Violation('scope', 'adding a rule: %s' % got))
            elif st['t'] == 'script':
                ref = ctx.ref(st['s'], pre=pre, texts=texts)
                check_script(ctx, st, got, ref, 'afterwards', vs, texts,
                             st['s'], 'step %d, ' % k)
            elif st['t'] == 'hashes':
                if got['bad']:
                    vs.append(Violation('hash', got['bad'][0]))
            elif st['t'] == 'callbacks':
                ref = ctx.ref(st['s'], pre=pre, texts=texts)
                failing = set()
                for n, what, op in got['fired']:
                    acted += 1
                    sig.append([st['s'][op]['f'], what, n])
                    if what == 'reenter':
                        ctx.fault('reentrant_callback')
                    else:
                        ctx.fault('callback_raises_' + what)
                        failing.add(op)
                ctx.probe('callback_calls', got['calls'])
                if got['wrong']:
                    vs.append(Violation('other-exception', 'step %d: %s' % (
                        k, got['wrong'][0])))
                    continue
                for n, (r, o) in enumerate(zip(ref['out'], got['out'])):
                    if n in failing:
                        if not o.startswith('!'):
                            vs.append(Violation('swallowed', (
                                'step %d: a callback raised (%s) but ' % (
                                    k, [f for f in got['fired']
                                        if f[2] == n]))
                                + first_diff(ctx, st['s'], ref['out'],
                                             got['out'], n,
                                             ref.get('texts'),
                                             got.get('texts'))))
                            break
                    elif r != o and not (o == 'skip' and failing):
                        vs.append(Violation('disturbed', (
                            'step %d (%s): ' % (k, got['fired']))
                            + first_diff(ctx, st['s'], ref['out'],
                                         got['out'], n, ref.get('texts'),
                                         got.get('texts'))))
                        break
                for inner in got['inner']:
                    if not vs:
                        ref = ctx.ref(inner['s'], pre=pre, texts=texts)
                        check_script(ctx, st, inner, ref, 'inner', vs, texts,
                                     inner['s'], 'inside a callback of step '
                                     '%d, ' % k)
        return vs, {'sig': digest(sig), 'nontrivial': acted > 0,
                    'resolved': {'steps': new}}

    def shrink(self, case):
        steps = case['steps']
        for i, st in enumerate(steps):
            if len(st.get('plan', ())) > 1:
                for j in range(len(st['plan'])):
                    ns = dict(st, plan=st['plan'][:j] + st['plan'][j + 1:])
                    yield {'steps': steps[:i] + [ns] + steps[i + 1:]}
            if 'plan' in st:
                # another call of the callback may do
                for j, (n, a) in enumerate(st['plan']):
                    if n > 0:
                        ns = dict(st, plan=st['plan'][:j] + [[n - 1, a]]
                                  + st['plan'][j + 1:])
                        yield {'steps': steps[:i] + [ns] + steps[i + 1:]}
                    if 's' in a and len(a['s']) > 1:
                        ns = dict(st, plan=st['plan'][:j] + [[
                            n, dict(a, s=a['s'][:len(a['s']) // 2])]]
                            + st['plan'][j + 1:])
                        yield {'steps': steps[:i] + [ns] + steps[i + 1:]}
        yield from super().shrink(case)
