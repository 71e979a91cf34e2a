"""The mini-language in which simulated clients talk to QNET.

A *script* is a list of operations ``{"f": name, "a": [...], "k": {...}}``;
operation number ``i`` produces value number ``i``.  Encoded arguments:

  plain JSON scalars       themselves
  ["$", i]                 the value of operation i
  ["T", ...] ["L", ...]    tuple, list
  ["D", [[k, v], ...]]     dict
  ["N", name]              a public name of qnet (class, singleton, function)
  ["R", "p/q"]             sympy Rational,  ["C", re, im] python complex,
  ["F", x]                 python float

Scripts contain no nondeterminism of their own; the outcome of every operation
is a *fingerprint* (a digest of the observable structure of the result) or the
type name of the exception raised.
"""
import hashlib
import itertools
import re
import warnings

import numpy as np
import sympy
from sympy.printing.repr import ReprPrinter

_REDUNDANT_DIM = re.compile(r'(basis=\([^)]*\)),\s*dimension=\d+')


class Budget(BaseException):
    """Raised by the simulator when a script exceeds its step budget"""


class Skip(Exception):
    """An operand of the operation is not available"""


# --------------------------------------------------------------------------
# fingerprints
# --------------------------------------------------------------------------

def _num(x):
    """canonical text of a number, insensitive to how it is spelled"""
    try:
        c = complex(x)
    except Exception:
        return None
    if c != c:
        return 'num:nan'
    re, im = c.real, c.imag
    if abs(re) < 1e-12:
        re = 0.0
    if abs(im) < 1e-12:
        im = 0.0
    return 'num:%.9g,%.9g' % (re, im)


#: identify a wrapped scalar with its value (they are equal)
UNWRAP = False


class SReprPrinter(ReprPrinter):
    # init_printing changes the settings that all sympy printers share
    _global_settings = {}


class FP:
    """Structural fingerprints of QNET objects.

    ``text`` gives a readable canonical text (bounded), ``digest`` a digest
    computed bottom-up over the expression DAG.
    """

    def __init__(self):
        import qnet
        from qnet.algebra.core.abstract_algebra import Expression
        from qnet.utils.singleton import Singleton
        from qnet.algebra.core.matrix_algebra import Matrix
        from qnet.algebra.pattern_matching import Pattern
        from qnet.algebra.toolbox.equation import Eq
        from qnet.utils.indices import SymbolicLabelBase, IndexRangeBase
        self.Expression = Expression
        self.Singleton = Singleton
        self.Matrix = Matrix
        self.Pattern = Pattern
        self.Eq = Eq
        self.SymbolicLabelBase = SymbolicLabelBase
        self.IndexRangeBase = IndexRangeBase
        import qutip
        self.Qobj = qutip.Qobj
        self.memo = {}
        self.keep = []
        self.dummies = {}

    # one node -> (head, [children])
    def node(self, o):
        if o is None or isinstance(o, (bool, np.bool_)):
            return ('lit:%r' % (None if o is None else bool(o)), ())
        if isinstance(o, str):
            if 'dimension=' in o:
                # equal spaces may be spelled with or without the dimension
                # implied by their basis
                o = _REDUNDANT_DIM.sub(r'\1', o)
            return ('str:' + o, ())
        if isinstance(o, bytes):
            return ('bytes:%r' % o, ())
        if isinstance(o, (int, float, complex, np.number)):
            return (_num(o), ())
        if isinstance(o.__class__, self.Singleton):
            return ('single:' + o.__class__.__name__, ())
        if isinstance(o, type):
            return ('class:' + o.__name__, ())
        if isinstance(o, sympy.Basic):
            if isinstance(o, sympy.Number) or o == sympy.I:
                t = _num(o)
                if t is not None:
                    return (t, ())
            return ('sympy:' + self._sympy(o), ())
        if isinstance(o, sympy.MatrixBase):
            return ('symat:%r' % (o.shape,), tuple(o))
        if isinstance(o, self.Qobj):
            d = o.full()
            return ('qobj:%r:%r:%s' % (
                o.dims, o.shape, hashlib.sha1(
                    repr([_num(x) for x in d.ravel()]).encode())
                .hexdigest()[:12]), ())
        if isinstance(o, self.Matrix):
            return ('Matrix:%r' % (o.shape,), tuple(o.matrix.ravel()))
        if isinstance(o, np.ndarray):
            return ('ndarray:%r' % (o.shape,), tuple(o.ravel()))
        if isinstance(o, self.Expression):
            if UNWRAP and o.__class__.__name__ == 'ScalarValue':
                return self.node(o.val)
            kw = sorted(o.kwargs.items())
            return ('%s/%s' % (o.__class__.__name__,
                               ','.join(k for k, _ in kw)),
                    tuple(o.args) + ('#kw',) + tuple(v for _, v in kw))
        if isinstance(o, self.Pattern):
            head = o.head
            if head is None:
                h = 'any'
            elif isinstance(head, (tuple, list)):
                h = '|'.join(x.__name__ for x in head)
            else:
                h = head.__name__
            kw = sorted((o.kwargs or {}).items())
            return ('Pattern:%s:%s:%s:%s:%d' % (
                h, o.mode, o.wc_name, ','.join(k for k, _ in kw),
                len(o.conditions)),
                tuple(o.args or ()) + ('#kw',) + tuple(v for _, v in kw))
        if isinstance(o, self.Eq):
            return ('Eq', (o.lhs, o.rhs, o.tag))
        if isinstance(o, self.SymbolicLabelBase):
            return (o.__class__.__name__,
                    (o.expr,) + ((o.hs,) if hasattr(o, 'hs') else ()))
        if isinstance(o, self.IndexRangeBase):
            vals = []
            for a in ('index_symbol', 'values', 'start_from', 'to', 'step',
                      'hs'):
                if hasattr(o, a):
                    vals.append(a)
                    vals.append(getattr(o, a))
            return (o.__class__.__name__, tuple(vals))
        if isinstance(o, (list, tuple)):
            return (('list' if isinstance(o, list) else 'tuple'), tuple(o))
        if isinstance(o, (set, frozenset)):
            return ('set', tuple(sorted(o, key=self.digest)))
        if hasattr(o, 'items'):
            items = sorted(o.items(), key=lambda kv: self.digest(kv[0]))
            name = o.__class__.__name__
            if name == 'MatchDict':
                name = 'MatchDict:%s' % bool(o)
            elif name != 'dict':
                name = 'dict'
            return (name, tuple(x for kv in items for x in kv))
        if isinstance(o, range):
            return ('range', tuple(o))
        if callable(o):
            return ('callable:' + getattr(o, '__name__', '?'), ())
        return ('obj:' + o.__class__.__name__, ())

    def _sympy(self, o):
        if o.has(sympy.Dummy):
            # dummies carry a process-global counter
            ds = sorted(o.atoms(sympy.Dummy), key=lambda d: d.dummy_index)
            o = o.xreplace({d: sympy.Symbol('Dummy%d' % i)
                            for i, d in enumerate(ds)})
        if o.has(sympy.Subs):
            # equal up to the name of the bound variable
            f = sympy.Function('SUBS')
            o = o.replace(lambda e: isinstance(e, sympy.Subs),
                          lambda e: f(e._expr, *e.point))
        return SReprPrinter({'order': None}).doprint(o)

    def digest(self, o):
        k = id(o)
        hit = self.memo.get(k)
        if hit is not None:
            return hit
        head, children = self.node(o)
        h = hashlib.sha1(head.encode('utf8', 'surrogatepass'))
        for c in children:
            h.update(b'|')
            h.update(self.digest(c).encode())
        d = h.hexdigest()[:14]
        self.memo[k] = d
        self.keep.append(o)
        return d

    def text(self, o, limit=600):
        out = []
        size = [0]

        def rec(x, depth):
            if size[0] > limit:
                return '..'
            head, children = self.node(x)
            head = head[:200]
            size[0] += len(head)
            if not children:
                return head
            return head + '(' + ', '.join(
                rec(c, depth + 1) for c in children) + ')'
        t = rec(o, 0)
        return t if len(t) <= limit * 2 else t[:limit * 2] + '...'

    def size(self, o, cap=100000):
        """number of nodes when written out as a tree (capped)"""
        memo = {}

        def rec(x):
            k = id(x)
            if k in memo:
                return memo[k]
            memo[k] = 1
            _, ch = self.node(x)
            n = 1
            for c in ch:
                n += rec(c)
                if n > cap:
                    n = cap
                    break
            memo[k] = n
            return n
        return rec(o)


# --------------------------------------------------------------------------
# function table
# --------------------------------------------------------------------------

def _listed(it, limit=40):
    return list(itertools.islice(iter(it), limit))


def _patterns():
    """named patterns (built afresh each time)"""
    import qnet as q
    wc, pattern, pattern_head = q.wc, q.pattern, q.pattern_head

    def P(name):
        A = wc('A', head=q.Operator)
        if name == 'sym':
            return pattern(q.OperatorSymbol, wc('l'), hs=wc('h'))
        if name == 'symargs':
            return pattern(q.OperatorSymbol, wc('l__'), hs=wc('h'))
        if name == 'times2':
            return pattern(q.OperatorTimes, wc('A'), wc('B'))
        if name == 'square':
            return pattern(q.OperatorTimes, A, A)
        if name == 'plus':
            return pattern(q.OperatorPlus, wc('ops__'))
        if name == 'plus_head':
            return pattern(q.OperatorPlus, wc('first'), wc('rest___'))
        if name == 'plus_tail':
            return pattern(q.OperatorPlus, wc('rest___'), wc('last'))
        if name == 'scaled':
            return pattern(q.ScalarTimesOperator,
                           wc('u', head=q.ScalarValue), wc('A'))
        if name == 'sigma':
            return pattern(q.LocalSigma, wc('j'), wc('k'), hs=wc('h'))
        if name == 'ket':
            return pattern(q.BasisKet, wc('n'), hs=wc('h'))
        if name == 'anyop':
            return wc('X', head=(q.Operator, q.State))
        if name == 'cond':
            return wc('X', head=q.Operator, conditions=[
                lambda e: e.space == q.LocalSpace(0)])
        if name == 'circ':
            return wc('X', head=(q.CircuitSymbol, q.CPermutation))
        if name == 'series':
            return pattern(q.SeriesProduct, wc('a'), wc('b__'))
        if name == 'num':
            return wc('n', head=(int, sympy.Integer))
        raise KeyError(name)
    return P


def _rule(name):
    """named (pattern, replacement) pairs for apply_rule(s)"""
    import qnet as q
    wc, pattern = q.wc, q.pattern
    if name == 'A2B':
        return (pattern(q.OperatorSymbol, 'A', hs=wc('hs')),
                lambda hs: q.OperatorSymbol('B', hs=hs))
    if name == 'sym2two':
        return (pattern(q.OperatorSymbol, wc('l'), hs=wc('hs')),
                lambda l, hs: 2 * q.OperatorSymbol(l, hs=hs))
    if name == 'comm':
        return (pattern(q.OperatorTimes, wc('A', head=q.OperatorSymbol),
                        wc('B', head=q.OperatorSymbol)),
                lambda A, B: B * A + q.Commutator.create(A, B))
    if name == 'cannot':
        def repl(A):
            raise q.CannotSimplify()
        return (wc('A', head=q.OperatorSymbol), repl)
    if name == 'ket0':
        return (pattern(q.BasisKet, wc('n'), hs=wc('hs')),
                lambda n, hs: q.KetSymbol('Z', hs=hs))
    if name == 'circ':
        return (wc('c', head=q.CircuitSymbol),
                lambda c: q.CircuitSymbol('X', cdim=c.cdim))
    raise KeyError(name)


def build_table():
    import operator as op
    import qnet as q
    from qnet.algebra.core.abstract_algebra import Expression
    from qnet.algebra.core import circuit_algebra
    from qnet.utils.ordering import expr_order_key
    from qnet.algebra.core.scalar_algebra import is_scalar
    table = {}
    for n in q.__all__:
        table[n] = getattr(q, n)
    P = _patterns()

    def sorted_ops(cls, *ops):
        return sorted(ops, key=cls.order_key)

    def eq_matrix(*vals):
        res = []
        for a, b in itertools.combinations(vals, 2):
            res.append(bool(a == b))
            res.append(bool(a != b))
        return res

    def hash_agree(a, b):
        return (not (a == b)) or hash(a) == hash(b)

    def as_dict_keys(*vals):
        d = {}
        for i, v in enumerate(vals):
            d.setdefault(v, i)
        return [d[v] for v in vals]

    def eq_chain(a, b, *steps):
        eq = q.Eq(a, b, tag=1)
        hist = []
        for i, s in enumerate(steps):
            if s == 'expand':
                eq = eq.apply_mtd('expand', cont=bool(i % 2), tag=i)
            elif s == 'adjoint':
                eq = eq.apply_mtd('adjoint', cont=True)
            elif s == 'rhs2':
                eq = eq.apply_to_rhs(lambda e: 2 * e, cont=True, tag=i + 5)
            elif s == 'lhs2':
                eq = eq.apply_to_lhs(lambda e: 2 * e, cont=False)
            elif s == 'settag':
                eq = eq.set_tag('t%d' % i)
            elif s == 'copy':
                eq = eq.copy()
            hist.append(eq)
        return hist

    def eq_str(eq, renderer='ascii'):
        return eq._render_str(table[renderer])

    def sympy_fn(name, *args):
        return getattr(sympy, name)(*args)

    def idxsym(name, primed=0, **kw):
        return q.IdxSym(name, primed=primed, **kw)

    def match(pname, expr):
        m = P(pname).match(expr)
        return (bool(m), dict(m) if m else None)

    def findall(pname, expr):
        return P(pname).findall(expr)

    def finditer(pname, expr):
        return [dict(m) for m in P(pname).finditer(expr)]

    def apply_rule(expr, rname, recursive=True):
        p, r = _rule(rname)
        return expr.apply_rule(p, r, recursive=recursive)

    def apply_rules(expr, *rnames):
        return expr.apply_rules([_rule(r) for r in rnames])

    def simplify_with(expr, fname='expand'):
        return expr.simplify_scalar(func=getattr(sympy, fname))

    def doit_classes(expr, *classes):
        return expr.doit(classes=classes)

    def print_settings(fmt, expr, **settings):
        return table[fmt](expr, **settings)

    def print_cached(fmt, expr, key, text):
        cache = {key: text}
        return table[fmt](expr, cache=cache)

    def prefill(fmt, n):
        A = q.OperatorSymbol
        return hashlib.sha1(''.join([
            (repr if fmt == 'repr' else table[fmt])(A.create('F_%d' % i, hs=9))
            for i in range(n)]).encode()).hexdigest()

    def dot_styles(expr, color):
        return q.dotprint(expr, styles=[
            (lambda e: isinstance(e, q.OperatorSymbol), {'color': color}),
            (lambda e: True, {'shape': 'box'})], splines='line')

    def tree_str(expr, **kw):
        return q.tree(expr, **kw)

    def srepr_eval(expr):
        ns = {n: getattr(q, n) for n in q.__all__}
        ns.update(sympy.__dict__)
        ns.update({n: getattr(q, n) for n in q.__all__})
        ns['array'] = np.array
        ns['dtype'] = np.dtype
        ns['object'] = object
        import collections
        ns['OrderedDict'] = collections.OrderedDict
        return eval(q.srepr(expr), ns)

    def mat(rows):
        return q.Matrix([list(r) for r in rows])

    def slh(S, Ls, H):
        return q.SLH(S, list(Ls), H)

    def qutip_of(expr, full_space=None):
        return q.convert_to_qutip(expr, full_space=full_space)

    def qutip_sub(expr, subs, full_space=None):
        return q.convert_to_qutip(expr.substitute(dict(subs)),
                                  full_space=full_space)

    def abcd(s, **kw):
        # lazy; D cannot be converted by this combination of SymPy and NumPy
        return [m.tolist() for m in
                itertools.islice(q.getABCD(s, **kw), 3)]
    table['getABCD'] = abcd

    def slh_qutip(s):
        H, Ls = q.SLH_to_qutip(s)
        return [H, list(Ls)]

    def nested_ctx_build(cls, *args, **kwargs):
        return cls.create(*args, **kwargs)

    def series(expr, sym, about, order):
        return expr.series_expand(sym, about, order)

    def rebuild_direct(expr):
        return type(expr)(*expr.args, **expr.kwargs)

    def rebuild_create(expr):
        return type(expr).create(*expr.args, **expr.kwargs)

    def symbol_names(expr):
        return sorted(sympy.srepr(s) for s in expr.free_symbols)

    def bound_names(expr):
        return sorted(sympy.srepr(s) for s in expr.bound_symbols)

    def terms_of(expr, limit=12):
        return _listed(expr.terms, limit)

    def rng(cls, sym, *args):
        return table[cls](sym, *args)

    def rng_iter(r, limit=8):
        return [dict(d) for d in _listed(r.iter(), limit)]

    def sum_over(expr, *idx):
        # Sum(i, ..)(Sum(j, ..)(expr)) style
        s = q.Sum(*idx[0])
        for i in idx[1:]:
            s = s * q.Sum(*i) if False else s
        return s(expr)

    def indexed_base(name, *idx):
        return sympy.IndexedBase(name)[tuple(idx) if len(idx) > 1 else idx[0]]

    def components_of(c):
        return [c.cdim, tuple(c.block_structure)]

    def mat_elem(m, fname):
        if fname == 'adj':
            return m.element_wise(q.adjoint)
        if fname == 'neg':
            return m.element_wise(lambda e: -1 * e)
        return m.element_wise(lambda e: 2 * e)

    def heisenberg(s, X, **kw):
        return s.symbolic_heisenberg_eom(X=X, **kw)

    def sy_expand(e):
        return sympy.expand(e)

    def sy_factor(e):
        return sympy.factor(e)

    def master(s):
        return s.symbolic_master_equation()

    def connect(components, connections, force_SLH=False, **kw):
        return q.connect([c for c in components],
                         [tuple(tuple(x) for x in c) for c in connections],
                         force_SLH=force_SLH, **kw)

    def qsymbols(names, cls, **kw):
        return q.symbols(names, cls=cls, **kw)

    def lessthan(a, b):
        return bool(a < b)

    def str_(x):
        return str(x)

    def expr_type(x):
        return type(x).__name__

    def isinst(x, *classes):
        return [isinstance(x, c) for c in classes]

    for f in list(locals().values()):
        if callable(f) and getattr(f, '__name__', '') not in (
                'build_table',) and f is not Expression:
            if getattr(f, '__module__', '') == __name__ and \
                    '<locals>' in getattr(f, '__qualname__', ''):
                table['h.' + f.__name__] = f
    def shown(f):
        def text(x):
            if isinstance(x, (set, frozenset, dict)):
                return sorted(text(e) for e in x)
            if isinstance(x, (list, tuple)):
                return [text(e) for e in x]
            # functions and default reprs show their address
            return re.sub(r' at 0x[0-9a-f]+', '', f(x))
        return text
    table['h.str'] = shown(str)
    table['h.repr'] = shown(repr)
    table['h.repr_latex'] = lambda x: x._repr_latex_()
    table['h.format'] = shown(lambda x: '{} {!r}'.format(x, x))

    def sympy_print():
        # the printers of sympy share the global settings
        x, y = sympy.symbols('x y')
        e = sympy.sqrt(x) / 2 + y ** 2 + sympy.atan(x) + 1
        return [sympy.sstr(e), sympy.latex(e), sympy.pretty(e),
                sympy.srepr(e)]
    table['h.sympy_print'] = sympy_print
    table['h.bool'] = bool
    table['h.list'] = _listed
    table['h.len'] = len
    table['h.sum'] = lambda *xs: sum(xs[1:], xs[0])
    table['h.conj'] = lambda x: x.conjugate()
    table['h.order_key'] = lambda x: repr(type(expr_order_key(x)))
    table['h.is_scalar'] = is_scalar
    table['h.eq'] = lambda a, b: bool(a == b)
    table['h.contains'] = lambda a, b: b in a
    table['h.getitem'] = lambda a, i: a[i]
    from qnet.algebra.library import spin_algebra
    for n in ('Jpjmcoeff', 'Jzjmcoeff', 'Jmjmcoeff'):
        table[n] = getattr(spin_algebra, n)
    table['h.ne'] = lambda a, b: bool(a != b)
    table['h.value'] = lambda a: a
    table['h.sympy_attr'] = lambda n: getattr(sympy, n)
    table['h.mat_of'] = lambda o: q.Matrix([[o]])
    for f in (abs, float, int, complex):
        table['h.' + f.__name__] = f
    table['h.hash'] = lambda a: hash(a) == hash(a)
    for n in ('add', 'sub', 'mul', 'truediv', 'pow', 'neg', 'lshift', 'and_',
              'rshift', 'lt', 'le', 'gt', 'ge', 'mod', 'floordiv'):
        table['op.' + n] = getattr(op, n)
    table['Symbol'] = lambda name, **kw: sympy.Symbol(name, **kw)
    table['sympy'] = sympy_fn
    table['permutation_matrix'] = None
    from qnet.algebra.core.matrix_algebra import permutation_matrix
    table['permutation_matrix'] = permutation_matrix
    return table


PRINTS = {'ascii', 'unicode', 'latex', 'srepr', 'tree', 'dotprint', 'tex',
          'h.print_settings', 'h.tree_str', 'h.print_cached',
          'h.prefill', 'h.dot_styles'}


class Interp:
    """Executes scripts against the real library"""

    def __init__(self):
        import qnet
        self.qnet = qnet
        self.table = build_table()
        #: mutable containers handed to the library, if recorded
        self.capture = None
        #: True while library code runs on behalf of a client
        self.active = False
        #: the thread scheduler, if several clients run
        self.thread_gate = None

    def dec(self, a, vals):
        if isinstance(a, list):
            t = a[0]
            if t == '$':
                v = vals[a[1]]
                if isinstance(v, Skip):
                    raise v
                return v
            if t == 'T':
                return tuple(self.dec(x, vals) for x in a[1:])
            if t == 'L':
                return self.given([self.dec(x, vals) for x in a[1:]])
            if t == 'D':
                return self.given({self.dec(k, vals): self.dec(v, vals)
                                   for k, v in a[1]})
            if t == 'A':        # numpy object array from nested lists
                rows = [[self.dec(x, vals) for x in r] for r in a[1]]
                arr = np.empty((len(rows), len(rows[0])), dtype=object)
                for i, r in enumerate(rows):
                    for j, x in enumerate(r):
                        arr[i, j] = x
                return self.given(arr)
            if t == 'N':
                return self.name(a[1])
            if t == 'S':
                return slice(None)
            if t == 'W':        # wildcard
                return self.qnet.wc(a[1])
            if t == 'R':
                return sympy.Rational(a[1])
            if t == 'C':
                return complex(a[1], a[2])
            if t == 'F':
                return float(a[1])
            raise ValueError(a)
        return a

    def name(self, n):
        if hasattr(self.qnet, n):
            return getattr(self.qnet, n)
        if n in ('Expression', 'Operation'):
            from qnet.algebra.core import abstract_algebra
            return getattr(abstract_algebra, n)
        if n == 'int':
            return int
        return self.table[n]

    def given(self, container):
        if self.capture is not None:
            self.capture.append(
                (container, FP().digest(container)))
        return container

    def resolve(self, f):
        fn = self.table.get(f)
        if fn is not None:
            return fn
        if '.' in f:
            cls, meth = f.split('.', 1)
            if cls in self.table:
                return getattr(self.table[cls], meth)
        raise KeyError('unknown function %s' % f)

    def call(self, op, vals):
        f = op['f']
        args = [self.dec(a, vals) for a in op.get('a', ())]
        kw = {k: self.dec(v, vals) for k, v in (op.get('k') or {}).items()}
        if f in PRINTS:     # a set prints in no defined order
            args = [len(a) if isinstance(a, (set, frozenset)) else a
                    for a in args]
        c = f[0]
        gate = self.thread_gate
        if gate is not None:
            gate.enter()
        self.active = True
        try:
            if c == '.':
                v = getattr(args[0], f[1:])(*args[1:], **kw)
            elif c == '@':
                v = getattr(args[0], f[1:])
            else:
                v = self.resolve(f)(*args, **kw)
            if hasattr(v, '__next__'):
                # drain lazily produced results: values are plain data
                v = _listed(v)
            return v
        finally:
            self.active = False
            if gate is not None:
                gate.leave()


SIZE_CAP = 3000


def run_script(interp, fp, script, vals=None, texts=None, step=None,
               catch=Exception):
    """Run all operations of `script`; return the list of outcomes.

    `step(i)` is called before operation i (fault/schedule hooks).
    """
    if vals is None:
        vals = []
    out = []
    for i, op in enumerate(script):
        if step is not None:
            step(i)
        try:
            v = interp.call(op, vals)
        except Skip:
            vals.append(Skip())
            out.append('skip')
            if texts is not None:
                texts.append('skip')
            continue
        except catch as exc:
            vals.append(Skip())
            out.append('!' + type(exc).__name__)
            if texts is not None:
                texts.append('raised %s: %s' % (
                    type(exc).__name__, str(exc)[:200]))
            continue
        try:
            d = fp.digest(v)
            big = fp.size(v, SIZE_CAP) >= SIZE_CAP
        except Exception as exc:
            d = '?fp:' + type(exc).__name__
            big = False
        if big:
            vals.append(Skip())
        else:
            vals.append(v)
        out.append(d)
        if texts is not None:
            try:
                texts.append(fp.text(v))
            except Exception as exc:
                texts.append('?text:' + type(exc).__name__)
    return out


def fmt_arg(a):
    if isinstance(a, list):
        t = a[0]
        if t == '$':
            return 'v%d' % a[1]
        if t == 'T':
            return '(' + ', '.join(fmt_arg(x) for x in a[1:]) + ',)'
        if t == 'L':
            return '[' + ', '.join(fmt_arg(x) for x in a[1:]) + ']'
        if t == 'D':
            return '{' + ', '.join('%s: %s' % (fmt_arg(k), fmt_arg(v))
                                   for k, v in a[1]) + '}'
        if t == 'N':
            return a[1]
        if t == 'W':
            return 'wc(%r)' % a[1]
        if t == 'R':
            return 'Rational(%r)' % a[1]
        if t == 'S':
            return ':'
        if t == 'A':
            return 'array([%s])' % ', '.join(
                '[%s]' % ', '.join(fmt_arg(x) for x in r) for r in a[1])
        return repr(a)
    return repr(a)


def fmt_script(script):
    """Readable rendering of a script"""
    lines = []
    for i, op in enumerate(script):
        args = [fmt_arg(a) for a in op.get('a', ())]
        args += ['%s=%s' % (k, fmt_arg(v))
                 for k, v in (op.get('k') or {}).items()]
        f = op['f']
        if f[0] == '.':
            lines.append('v%d = %s%s(%s)' % (i, ''.join(args[:1]), f, ', '.join(args[1:])))
        elif f[0] == '@':
            lines.append('v%d = %s.%s' % (i, args[0], f[1:]))
        else:
            lines.append('v%d = %s(%s)' % (i, f, ', '.join(args)))
    return lines
