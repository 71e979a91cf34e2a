"""Singletons: all the ways to obtain one, and whether it is *the* one (P12).

`CANON` (name -> object) is recorded in the freshly imported library."""
import copy
import itertools
import pickle
import sys

import numpy as np

CANON = {}
NAMES = {}


def prepare():
    import qnet as q
    from qnet.utils.singleton import Singleton
    for n in q.__all__:
        o = getattr(q, n)
        if isinstance(type(o), Singleton):
            CANON[type(o).__name__] = o
            NAMES[n] = type(o).__name__


def _eval(text):
    from .jobs_ext import _eval_ns
    return eval(text, _eval_ns())


def _via(s, how):
    import qnet as q
    cls = type(s)
    if how == 'module':
        return getattr(sys.modules[cls.__module__], cls.__name__)
    if how == 'class':
        return cls()
    if how == 'class_args':
        return cls('x', 2)
    if how == 'new':
        # what `pickle` does for any other class
        return cls.create(*s.args, **s.kwargs)
    if how == 'call':
        return s()
    if how == 'create':
        return cls.create()
    if how == 'copy':
        return copy.copy(s)
    if how == 'deepcopy':
        return copy.deepcopy(s)
    if how == 'deepcopy2':
        return copy.deepcopy({'a': [s, (s, 1)]})['a'][1][0]
    if how == 'picklelist':
        return pickle.loads(pickle.dumps([1, {'x': (s, s)}]))[1]['x'][1]
    if how.startswith('pickle'):
        return pickle.loads(pickle.dumps(s, int(how[6:])))
    if how == 'srepr':
        return _eval(q.srepr(s))
    if how == 'rebuild':
        return s.rebuild()
    if how == 'substitute':
        return s.substitute({'x': 1})
    if how == 'apply_rules':
        return s.apply_rules([])
    if how == 'doit':
        return s.doit()
    if how == 'args':
        return cls(*s.args, **s.kwargs)
    if how == 'dict':
        return {s: s}[cls()]
    if how == 'times_one':
        return 1 * s * 1
    if how == 'adjoint':
        return s.adjoint()
    if how == 'expand':
        return s.expand().simplify_scalar()
    if how == 'square':
        return s * s
    raise KeyError(how)


ANY = ['module', 'class', 'class_args', 'new', 'call', 'create', 'copy',
       'deepcopy', 'deepcopy2', 'pickle0', 'pickle1', 'pickle2', 'pickle3',
       'pickle4', 'pickle5', 'picklelist', 'srepr', 'rebuild', 'substitute',
       'apply_rules', 'doit', 'args', 'dict']
QUANTUM = ['times_one', 'expand', 'square']


def routes(name):
    s = CANON[name]
    import qnet as q
    r = list(ANY)
    if isinstance(s, q.QuantumExpression):
        r += QUANTUM
        if not isinstance(s, q.State):
            r.append('adjoint')
    return r


def _laws():
    """(singleton, operation that gives it)"""
    import sympy
    import qnet as q
    x = sympy.Symbol('x')
    V = q.ScalarValue.create

    class L:
        pass

    def op(n=0, hs=1):
        return q.OperatorSymbol('ABC'[n % 3], hs=hs)

    def ket(n=0, hs=1):
        return q.BasisKet(n, hs=q.LocalSpace(hs, dimension=4))

    def ks(n=0, hs=1):
        return q.KetSymbol('ABC'[n % 3], hs=hs)

    def sup(n=0, hs=1):
        return q.SuperOperatorSymbol('ABC'[n % 3], hs=hs)

    def hs(n=0):
        return q.LocalSpace('h%d' % n)

    def circ(n=0, cdim=1):
        return q.CircuitSymbol('ABC'[n % 3], cdim=cdim)
    Z = q.ZeroOperator
    return [
        ('ZeroOperator', lambda n: op(n) - op(n)),
        ('ZeroOperator', lambda n: 0 * op(n)),
        ('ZeroOperator', lambda n: Z * op(n)),
        ('ZeroOperator', lambda n: op(n) * Z),
        ('ZeroOperator', lambda n: x * Z),
        ('ZeroOperator', lambda n: Z.adjoint() + Z),
        ('ZeroOperator', lambda n: q.LocalProjector(n, hs=1) *
         q.LocalProjector(n + 1, hs=1)),
        ('ZeroOperator', lambda n: q.Commutator.create(op(n), op(n))),
        ('ZeroOperator', lambda n: q.Commutator.create(op(n), op(1, hs=2))),
        ('ZeroOperator', lambda n: op(n).diff(x)),
        ('ZeroOperator', lambda n: q.OperatorPlus.create()),
        ('ZeroOperator', lambda n: sum([op(n), -op(n)], Z)),
        ('ZeroOperator', lambda n: op(n).substitute({op(n): Z})),
        ('ZeroOperator', lambda n: (2 * op(n)).substitute({op(n): Z})),
        ('ZeroOperator', lambda n: (x * op(n)).substitute({x: 0})),
        ('ZeroOperator', lambda n: q.OperatorTrace.create(
            Z, over_space=hs(n))),
        ('ZeroOperator', lambda n: q.Matrix([[op(n)]]).matrix[0, 0]
         - op(n)),
        ('ZeroOperator', lambda n: (q.Matrix([[op(n)]]) -
                                    q.Matrix([[op(n)]])).matrix[0, 0]),
        ('ZeroOperator', lambda n: q.zerosm((2, 2)).matrix[0, 1]
         * op(n)),
        ('ZeroOperator', lambda n: op(n).series_expand(x, 0, 1)[1]),
        ('IdentityOperator', lambda n: q.OperatorTimes.create()),
        ('IdentityOperator', lambda n: op(n) ** 0),
        ('IdentityOperator', lambda n: q.Adjoint.create(q.II)),
        ('IdentityOperator', lambda n: q.PseudoInverse.create(q.II)),
        ('IdentityOperator', lambda n: q.Displace.create(0, hs=n)),
        ('IdentityOperator', lambda n: q.Phase.create(0, hs=n)),
        ('IdentityOperator', lambda n: q.Squeeze.create(0, hs=n)),
        ('IdentityOperator', lambda n: q.OperatorTrace.create(
            q.LocalProjector(n, hs=3), over_space=3)),
        ('IdentityOperator', lambda n: q.identity_matrix(2).matrix[1, 1]
         * q.II),
        ('IdentityOperator', lambda n: op(n).substitute({op(n): q.II})),
        ('IdentityOperator', lambda n: q.Displace(V(2), hs=n) *
         q.Displace(V(-2), hs=n)),
        ('ZeroKet', lambda n: Z * ks(n)),
        ('ZeroKet', lambda n: q.Destroy(hs=q.LocalSpace(1, dimension=4))
         * ket(0)),
        ('ZeroKet', lambda n: 0 * ks(n)),
        ('ZeroKet', lambda n: ks(n) - ks(n)),
        ('ZeroKet', lambda n: q.ZeroKet * ks(n)),
        ('ZeroKet', lambda n: ks(n).diff(x)),
        ('ZeroKet', lambda n: q.LocalProjector(
            0, hs=q.LocalSpace(1, dimension=4)) * ket(1)),
        ('ZeroKet', lambda n: q.ZeroKet.adjoint().adjoint()),
        ('TrivialKet', lambda n: q.TrivialKet.adjoint().adjoint()),
        ('TrivialKet', lambda n: ks(n).substitute({ks(n): q.TrivialKet})),
        ('Zero', lambda n: V(0)),
        ('Zero', lambda n: V(0.0)),
        ('Zero', lambda n: V(0j)),
        ('Zero', lambda n: V(np.float64(0))),
        ('Zero', lambda n: V(np.int64(0))),
        ('Zero', lambda n: V(sympy.Integer(0))),
        ('Zero', lambda n: V(x) - V(x)),
        ('Zero', lambda n: V(x) * q.Zero),
        ('Zero', lambda n: 0 * V(x)),
        ('Zero', lambda n: q.One - 1),
        ('Zero', lambda n: V(n + 3) - V(n + 3)),
        ('Zero', lambda n: V(n).diff(x)),
        ('Zero', lambda n: q.BraKet.create(ket(0), ket(1))),
        ('Zero', lambda n: q.BraKet.create(q.ZeroKet, ks(n))),
        ('Zero', lambda n: q.ScalarPlus.create()),
        ('Zero', lambda n: q.Zero.conjugate()),
        ('One', lambda n: V(1)),
        ('One', lambda n: V(1.0)),
        ('One', lambda n: V(1 + 0j)),
        ('One', lambda n: V(np.float64(1))),
        ('One', lambda n: V(sympy.Integer(1))),
        ('One', lambda n: q.BraKet.create(ket(n), ket(n))),
        ('One', lambda n: q.ScalarTimes.create()),
        ('One', lambda n: V(x) ** 0),
        ('One', lambda n: V(x) / V(x)),
        ('One', lambda n: q.Zero + 1),
        ('One', lambda n: V(2) / 2),
        ('One', lambda n: V(x).diff(x)),
        ('One', lambda n: (2 * op(n)).coeff / 2),
        ('ZeroSuperOperator', lambda n: 0 * sup(n)),
        ('ZeroSuperOperator', lambda n: sup(n) - sup(n)),
        ('ZeroSuperOperator', lambda n: q.SuperOperatorPlus.create()),
        ('ZeroSuperOperator', lambda n: q.SPre.create(Z)),
        ('ZeroSuperOperator', lambda n: q.SPost.create(Z)),
        ('ZeroSuperOperator', lambda n: q.ZeroSuperOperator * sup(n)),
        ('ZeroSuperOperator', lambda n: sup(n).diff(x)),
        ('IdentitySuperOperator', lambda n: q.SPre.create(q.II)),
        ('IdentitySuperOperator', lambda n: q.SPost.create(q.II)),
        ('IdentitySuperOperator', lambda n: q.SuperOperatorTimes.create()),
        ('IdentitySuperOperator', lambda n: sup(n) ** 0),
        ('IdentitySuperOperator', lambda n: q.SuperAdjoint.create(
            q.IdentitySuperOperator)),
        ('TrivialSpace', lambda n: q.II.space),
        ('TrivialSpace', lambda n: q.TrivialKet.space),
        ('TrivialSpace', lambda n: V(n).space),
        ('TrivialSpace', lambda n: q.ProductSpace.create()),
        ('TrivialSpace', lambda n: hs(n).remove(hs(n))),
        ('TrivialSpace', lambda n: hs(n) & hs(n + 1)),
        ('TrivialSpace', lambda n: q.TrivialSpace * q.TrivialSpace),
        ('TrivialSpace', lambda n: (hs(n) * hs(n + 1)).remove(
            hs(n) * hs(n + 1))),
        ('TrivialSpace', lambda n: q.BraKet.create(ks(n), ks(n + 1)).space),
        ('FullSpace', lambda n: q.ZeroKet.space),
        ('FullSpace', lambda n: q.FullSpace * hs(n)),
        ('FullSpace', lambda n: q.FullSpace & q.FullSpace),
        ('CircuitZero', lambda n: q.Concatenation.create()),
        ('CircuitZero', lambda n: q.circuit_identity(0)),
        ('CIdentity', lambda n: q.circuit_identity(1)),
        ('CIdentity', lambda n: q.CPermutation.create((0,))),
        ('CIdentity', lambda n: q.CIdentity << q.CIdentity),
        ('CIdentity', lambda n: q.SeriesInverse.create(q.CIdentity)),
        ('CIdentity', lambda n: q.SeriesInverse.create(circ(n)) << circ(n)),
        ('CIdentity', lambda n: (q.CIdentity + q.CIdentity)
         .get_blocks()[0]),
        ('CIdentity', lambda n: q.CIdentity + q.CircuitZero),
    ]


LAWS = None


def laws():
    global LAWS
    if LAWS is None:
        LAWS = _laws()
    return LAWS


def obtain(name, how):
    return _via(CANON[name], how)


def law(i, n):
    return laws()[i][1](n)


def fresh(kind, label, slow=0):
    """a singleton class of the client"""
    import qnet as q
    from qnet.utils.singleton import Singleton, singleton_object

    def init(self, *args, **kwargs):
        self.__dict__['ready'] = False
        for _ in range(slow):
            q.IdentityOperator.space
        self.__dict__['ready'] = True
    ns = {'ready': False, '__module__': 'client'}
    if kind == 'plain':
        return Singleton(label, (), dict(ns, __init__=init))
    if kind == 'expression':
        def expr_init(self, *args, **kwargs):
            init(self)
            q.Expression.__init__(self, *args, **kwargs)
        return Singleton(label, (q.Expression,), dict(
            ns, __init__=expr_init, args=property(lambda s: ())))
    if kind == 'child':
        # a singleton class derived from a singleton class in use
        return Singleton(label, (type(q.IdentityOperator),), dict(
            ns, ready=True))
    if kind == 'decorated':
        return type(singleton_object(Singleton(label, (), dict(
            ns, __init__=init))))
    raise KeyError(kind)


def ready(obj):
    """is the singleton (of a class made by `fresh`) initialised?"""
    return bool(getattr(obj, 'ready', False))


def made(*classes):
    """instances of different singleton classes"""
    objs = [c() for c in classes]
    return [[a is b for b in objs] for a in objs]


def find(vals, laws_of=None):
    """problems with the singletons reachable from the values"""
    import qnet as q
    from qnet.utils.singleton import Singleton, SingletonType
    bad = []
    seen = {}
    n = 0
    todo = [(i, v, 0) for i, v in enumerate(vals)]
    while todo:
        i, o, d = todo.pop()
        if id(o) in seen or d > 60:
            continue
        seen[id(o)] = o
        if isinstance(type(o), Singleton):
            n += 1
            c = CANON.get(type(o).__name__)
            if c is None or type(o) is not type(c):
                c = type(o)()
            if o is not c or type(o)() is not o:
                bad.append([i, 'a second %s object' % type(o).__name__])
            elif not isinstance(o, SingletonType):
                bad.append([i, '%s is not recognised as a singleton' %
                            type(o).__name__])
            continue
        if type(o) is q.ScalarValue:
            n += 1
            for name, val in (('Zero', 0), ('One', 1)):
                if o.val == val:
                    bad.append([i, 'an object equal to %s that is not %s' % (
                        name, name)])
        if isinstance(o, q.Expression):
            todo += [(i, x, d + 1) for x in o.args]
            todo += [(i, x, d + 1) for x in o.kwargs.values()]
        elif isinstance(o, q.Matrix):
            todo += [(i, x, d + 1) for x in o.matrix.ravel()]
        elif isinstance(o, np.ndarray) and o.dtype == object:
            todo += [(i, x, d + 1) for x in o.ravel()]
        elif isinstance(o, (list, tuple, set, frozenset)):
            todo += [(i, x, d + 1) for x in o]
        elif isinstance(o, dict):
            todo += [(i, x, d + 1) for x in itertools.chain(
                o.keys(), o.values())]
    return bad, n


def check_ops(script, vals, interrupted=False):
    """operations that must give a certain singleton"""
    bad = []
    from .dsl import Skip
    for i, (op, v) in enumerate(zip(script, vals)):
        want = None
        if isinstance(v, Skip) and interrupted:
            continue
        if op['f'] == 'h.ready' and v is not True:
            bad.append([i, 'the singleton is not initialised'])
        if op['f'] == 'h.made' and not isinstance(v, Skip) and \
                v != [[a == b for b in op['a']] for a in op['a']]:
            bad.append([i, 'different classes have the same object, or one '
                        'class has two'])
        if op['f'] == 'h.obtain':
            want = op['a'][0]
        elif op['f'] == 'h.law':
            want = laws()[op['a'][0]][0]
        if want is not None and v is not CANON[want]:
            bad.append([i, 'does not give the object %s%s' % (
                want, ' (raised)' if isinstance(v, Skip) else '')])
    return bad


NUM_OPS = ['abs', 'neg', 'conjugate', 'adjoint', 'real', 'imag', 'rebuild',
           'simplify', 'expand', 'copy', 'diff', 'series', 'subs',
           'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow',
           'radd', 'rsub', 'rmul', 'rtruediv', 'rfloordiv', 'rmod', 'rpow',
           'braket', 'coeff', 'plus', 'times', 'power', 'derivative', 'sum',
           'matrix', 'trace', 'sqrt']
NUMBERS = ['0', '1', '-1', '2', '-2', '3', '0.5', '1.0', '-1.0', '1j', '-1j',
           '(1+0j)', 'np.float64(-1.0)', 'np.float64(2.0)', 'np.int64(-1)',
           'np.int64(2)', 'np.complex128(-1j)', 'sympy.I', 'sympy.Integer(-1)',
           'sympy.Rational(1, 2)', 'sympy.sqrt(2)', 'x', '1/x', '-x', 'x+1',
           '2**x', 'sympy.conjugate(x)', 'x/x']


def num(how, a, b, raw):
    """numerical operations with scalars"""
    import operator
    import sympy
    import qnet as q
    x = sympy.Symbol('x')
    ns = {'np': np, 'sympy': sympy, 'x': x}
    V = q.ScalarValue.create
    va, vb = (eval(t, ns) for t in (a, b))
    a, b = V(va), (vb if raw else V(vb))
    if how in ('abs', 'neg'):
        return getattr(operator, how)(a)
    if how in ('conjugate', 'adjoint', 'rebuild'):
        return getattr(a, how)()
    if how in ('real', 'imag'):
        return V(getattr(a, how))
    if how == 'simplify':
        return (a * V(x)).simplify_scalar()
    if how == 'expand':
        return (a * (V(x) + b)).expand()
    if how == 'copy':
        return copy.copy(a), copy.deepcopy(a), pickle.loads(pickle.dumps(a))
    if how == 'diff':
        return (a * V(x)).diff(x)
    if how == 'series':
        return (a * V(x) + b).series_expand(x, 0, 2)
    if how == 'subs':
        s = (a * V(x) + b).substitute({x: vb})
        return s if isinstance(s, q.Expression) else V(s)
    A = q.OperatorSymbol('A', hs=1)
    psi = q.BasisKet(0, hs=q.LocalSpace(1, dimension=2))
    if how == 'braket':
        return q.BraKet.create(a * psi, b * psi)
    if how == 'coeff':
        return getattr(a * A * b, 'coeff', None)
    if how == 'plus':
        return q.ScalarPlus.create(a, V(vb), a)
    if how == 'times':
        return q.ScalarTimes.create(a, V(vb), a)
    if how == 'power':
        return q.ScalarPower.create(a, b)
    if how == 'derivative':
        return q.ScalarDerivative.create(a, derivs={x: 1})
    if how == 'sum':
        i = q.IdxSym('i')
        return q.ScalarIndexedSum.create(
            a, q.IndexOverRange(i, 0, 1)).doit()
    if how == 'matrix':
        m = q.Matrix([[a, b], [1, 0]])
        return m * m, m.adjoint(), m + m
    if how == 'trace':
        return q.tr(a * psi.ketbra(psi) if hasattr(psi, 'ketbra')
                    else a * q.KetBra.create(psi, psi), over_space=psi.space)
    if how == 'sqrt':
        return q.sqrt(a) if raw else a ** sympy.Rational(1, 2)
    if how.startswith('r') and hasattr(operator, how[1:]):
        return getattr(operator, how[1:])(vb, a)
    return getattr(operator, how)(a, b)


def extend_table(table):
    table['h.num'] = num
    table['h.obtain'] = obtain
    table['h.law'] = law
    table['h.fresh'] = fresh
    table['h.made'] = made
    table['h.ready'] = ready
    table['h.call'] = lambda f, *a: f(*a)
