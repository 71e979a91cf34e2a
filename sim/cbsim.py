"""User callbacks which fail, or use the library themselves (P18)."""
import contextlib

import sympy

from . import dsl, jobs


class Boom(Exception):
    """an exception the library knows nothing about"""


class Quit(BaseException):
    """not even an Exception"""


def exceptions():
    import qnet as q
    return {
        'Boom': Boom, 'Quit': Quit, 'AttributeError': AttributeError,
        'ValueError': ValueError, 'TypeError': TypeError,
        'KeyError': KeyError, 'IndexError': IndexError,
        'RuntimeError': RuntimeError, 'StopIteration': StopIteration,
        'NotImplementedError': NotImplementedError,
        'AssertionError': AssertionError, 'OSError': OSError,
        'RecursionError': RecursionError,
        'BasisNotSetError': q.BasisNotSetError,
        'AlgebraError': q.AlgebraError,
        'CannotConvertToSLH': q.CannotConvertToSLH,
        'KeyboardInterrupt': KeyboardInterrupt,
    }


RULES = ['A2B', 'sym2two', 'comm', 'cannot', 'ket0', 'circ']
OPTIONS = {     # which argument of a call with a callback to replace
    'cb.simplify': (1, ['expand', 'factor', 'simplify', 'sympify']),
    'cb.elements': (1, ['same', 'double', 'expand', 'adjoint']),
    'cb.apply': (1, ['same', 'double', 'adjoint']),
    'cb.apply_rule': (1, RULES), 'cb.cond_rule': (1, RULES),
    'cb.apply_rules': (2, RULES),
    'cb.match': (0, ['sym', 'times2', 'plus', 'anyop', 'scaled']),
    'cb.findall': (0, ['sym', 'times2', 'plus', 'anyop', 'scaled']),
    'cb.finditer': (0, ['sym', 'times2', 'plus', 'anyop', 'scaled']),
}


def variant(script, i, r):
    """the script up to operation i, which is applied to the same objects
    (they come from the cache), with the same or another callback, or
    replaced by another method"""
    op = dict(script[i])
    if op['f'] in OPTIONS and r % 4 < 3:
        n, options = OPTIONS[op['f']]
        op['a'] = list(op['a'])
        op['a'][n] = options[r // 4 % len(options)]
    elif r % 8 == 7 and op.get('a'):
        e = [a for a in op['a'] if isinstance(a, list) and a[:1] == ['$']]
        if e:
            op = {'f': ['.expand', '.simplify_scalar', '.adjoint',
                        '@free_symbols', '.doit'][r // 8 % 5], 'a': e[:1]}
    return script[:i] + [op]


class Plan:
    """what happens at the n-th call of a callback"""

    def __init__(self):
        self.reset({})

    def reset(self, plan):
        self.plan = plan
        self.n = 0
        self.depth = 0
        self.fired = []     # [number, what, operation]
        self.raised = []    # the exceptions themselves
        self.inner = []
        self.op = None

    def wrap(self, fn):
        def callback(*args, **kwargs):
            if self.depth:
                return fn(*args, **kwargs)
            act = self.plan.get(self.n) or self.always()
            self.n += 1
            if act is None:
                return fn(*args, **kwargs)
            number = self.n - 1
            if act.get('late'):
                fn(*args, **kwargs)
            self.fired.append([number, act.get('exc', 'reenter'), self.op])
            if 'exc' in act:
                exc = exceptions()[act['exc']]('from the callback')
                self.raised.append(exc)
                raise exc
            self.depth += 1
            try:
                texts = [] if self.texts else None
                script = act['s'] if 's' in act else variant(
                    self.script, self.op, act['again'])
                with self.scope(act):
                    out = dsl.run_script(jobs.INTERP, dsl.FP(), script,
                                         None, texts)
                self.inner.append({'s': script, 'out': out, 'texts': texts})
            finally:
                self.depth -= 1
            return fn(*args, **kwargs)
        callback.__name__ = getattr(fn, '__name__', 'callback')
        return callback

    def always(self):
        """an action that is repeated (at most 12 times)"""
        for n, act in self.plan.items():
            if act.get('on') and n < self.n <= n + 12:
                return act

    def scope(self, act):
        import qnet as q
        if act.get('scope') == 'nocache':
            return q.no_instance_caching()
        if act.get('scope') == 'cache':
            return q.temporary_instance_cache()
        return contextlib.nullcontext()


PLAN = Plan()


def conditions(p):
    """a copy of a pattern whose conditions (one is added to each part) are
    callbacks"""
    import qnet as q
    if not isinstance(p, q.algebra.pattern_matching.Pattern):
        return p
    args = p.args
    if args is not None:
        args = [conditions(a) for a in args]
    kwargs = p.kwargs
    if kwargs is not None:
        kwargs = {k: conditions(v) for k, v in kwargs.items()}
    conds = [PLAN.wrap(c) for c in p.conditions] or [
        PLAN.wrap(lambda e: True)]
    return type(p)(p.head, args, kwargs, mode=p.mode, wc_name=p.wc_name,
                   conditions=conds)


def extend_table(table):
    import qnet as q
    wrap = PLAN.wrap
    P = dsl._patterns()

    def apply_rule(expr, rname, recursive=True):
        p, r = dsl._rule(rname)
        return expr.apply_rule(p, wrap(r), recursive=recursive)

    def apply_rules(expr, how, *rnames):
        rules = [dsl._rule(r) for r in rnames]
        rules = [(p, wrap(r)) for p, r in rules]
        if how == 'dict':
            rules = dict(enumerate(rules))
        return expr.apply_rules(rules)

    def cond_rule(expr, rname):
        p, r = dsl._rule(rname)
        return expr.apply_rule(conditions(p), r)

    def match(pname, expr):
        m = conditions(P(pname)).match(expr)
        return (bool(m), dict(m) if m else None)

    def findall(pname, expr):
        return conditions(P(pname)).findall(expr)

    def finditer(pname, expr):
        return [dict(m) for m in conditions(P(pname)).finditer(expr)]

    def simplify(expr, fname):
        return expr.simplify_scalar(func=wrap(getattr(sympy, fname)))

    def elements(m, fname):
        fns = {'same': lambda e: e, 'double': lambda e: 2 * e,
               'expand': lambda e: e.expand() if hasattr(e, 'expand') else e,
               'adjoint': q.adjoint}
        return m.element_wise(wrap(fns[fname]))

    def apply(expr, fname):
        fns = {'same': lambda e: e, 'double': lambda e: 2 * e,
               'adjoint': q.adjoint}
        return expr.apply(wrap(fns[fname]))

    def dot(expr, repeat=True):
        children = q.printing.dot._op_children
        return q.dotprint(
            expr, repeat=repeat,
            styles=[(wrap(lambda e: isinstance(e, q.Operation)),
                     {'color': 'red'}),
                    (wrap(lambda e: True), {'shape': 'box'})],
            labelfunc=wrap(lambda e, leaf: type(e).__name__ + str(leaf)),
            idfunc=wrap(lambda e: 'n'), get_children=wrap(children))

    def qutip(expr, sym):
        from qnet.convert.to_qutip import convert_to_qutip
        return convert_to_qutip(expr, mapping={
            sym: wrap(lambda e: convert_to_qutip(q.Create(hs=e.space)))})

    def substitute(expr, var_map):
        return expr.substitute(var_map)

    for name, fn in list(locals().items()):
        if callable(fn) and name not in ('wrap', 'P', 'q', 'table'):
            table['cb.' + name] = fn


def do_callbacks(ses, st):
    """run a script whose callbacks follow a plan; the number of a call may
    be given as a fraction of all calls"""
    plan = st['plan']
    if any(isinstance(k, float) for k, a in plan):
        total = ses.forked(lambda: follow(ses, dict(st, plan=[]))['calls'])
        plan = [[int(k * total) if isinstance(k, float) else k, a]
                for k, a in plan]
    r = follow(ses, dict(st, plan=plan))
    r['plan'] = plan
    return r


def follow(ses, st):
    PLAN.reset({int(k): a for k, a in st['plan']})
    PLAN.texts = ses.texts
    PLAN.script = st['s']
    wrong = []
    interp = jobs.INTERP
    real = interp.call

    def step(i):
        PLAN.op = i

    def call(op, vals):
        if PLAN.depth:
            return real(op, vals)
        PLAN.raised = []
        try:
            v = real(op, vals)
            if PLAN.raised:
                wrong.append('%s: the callback raised %r, the operation '
                             'went on' % (op['f'], PLAN.raised[0]))
            return v
        except dsl.Skip:
            raise
        except BaseException as exc:
            if PLAN.raised and exc.__cause__ is PLAN.raised[0]:
                # reported as the cause of another exception
                exc = PLAN.raised[0]
            if PLAN.raised and exc is not PLAN.raised[0]:
                wrong.append('%s: the callback raised %r, the operation '
                             '%s: %s' % (op['f'], PLAN.raised[0],
                                         type(exc).__name__, exc))
            if isinstance(exc, Quit):
                # the client catches it
                raise RuntimeError('Quit')
            raise exc
        finally:
            PLAN.raised = []
    interp.call = call
    try:
        r = ses.script(st, catch=(Exception, KeyboardInterrupt), step=step)
    finally:
        del interp.call
        plan, n = PLAN.plan, PLAN.n
        fired, inner = PLAN.fired, PLAN.inner
        PLAN.reset({})
    r.update(fired=fired, calls=n, wrong=wrong, inner=inner)
    return r


def do_cbrule(ses, st):
    """add rules and simplifications whose functions are callbacks"""
    c = jobs.resolve_class(st['cls'])
    try:
        if st['op'] == 'add':
            pat, repl = jobs.user_rule(st['rule'])
            if st.get('cond'):
                pat = conditions(pat)
            c.add_rule(st['name'], pat, PLAN.wrap(repl))
        else:
            f = jobs.user_simplification(st['rule'])
            g = PLAN.wrap(f)
            c.simplifications.append(g)
    except Exception as exc:
        return {'rule': '!' + type(exc).__name__}
    return {'rule': 'ok'}
