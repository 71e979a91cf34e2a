"""Equations and their histories (P15): the real Eq against a model.

The model of an equation is an immutable tuple of lines (lhs or None, rhs,
tag); lhs is None where the left-hand side was carried over from the line
before.  Expressions are computed by the library in both (the algebra is not
in question here); the model is never handed to the library.
"""
import copy
import pickle

from . import dsl, jobs


class Failure(Exception):
    pass


def pool():
    """expressions that can be equated, by kind"""
    import sympy
    import qnet as q
    A = q.OperatorSymbol('A', hs=1)
    B = q.OperatorSymbol('B', hs=1)
    A2 = q.OperatorSymbol('A', hs=q.LocalSpace(1, dimension=2))
    x = sympy.Symbol('x')
    k = q.KetSymbol('Psi', hs=q.LocalSpace(1, dimension=2))
    k2 = q.BasisKet(0, hs=q.LocalSpace(1, dimension=2))
    S = q.SuperOperatorSymbol('S', hs=1)
    V = q.ScalarValue.create
    C = q.CircuitSymbol('C', cdim=2)
    D = q.CircuitSymbol('D', cdim=2)
    return {
        'op': [A, B, A + B, A * B, A * (A + B), x * A, 2 * B, q.Create(hs=1),
               q.IdentityOperator, q.ZeroOperator,
               q.OperatorSymbol('F', x, hs=1)],
        'scalar': [V(x), V(2), V(x) + V(sympy.Symbol('y')), V(x) ** 2,
                   q.BraKet.create(k, k2), q.One, q.Zero],
        'ket': [k, k2, k + k2, x * k, A2 * k, q.ZeroKet, 2 * k2],
        'sop': [S, q.SPre(A), S + q.SPost(B), x * S, S * q.SPre(A)],
        'sympy': [x, x + 1, x ** 2, sympy.sqrt(x) * 2, sympy.Integer(3)],
        'circuit': [C, D, C << D, D.series_inverse(), q.CIdentity + C],
        'number': [1, 2, 3],
    }


KINDS = ['op', 'scalar', 'ket', 'sop', 'sympy', 'circuit']
SUMMABLE = {'op', 'scalar', 'ket', 'sop', 'sympy'}


class Entry:
    def __init__(self, eq, lines, kind):
        self.eq = eq
        self.lines = lines
        self.kind = kind


def lhs_of(lines):
    for l, r, t in reversed(lines):
        if l is not None:
            return l


def norm_tag(t):
    try:
        return int(t)
    except (ValueError, TypeError):
        return t


class World:
    """all equations of a simulated process, and their models"""

    def __init__(self):
        self.pool = pool()
        self.entries = {}
        self.bad = []
        self.n_checks = 0
        self.pending = []

    def say(self, what):
        if len(self.bad) < 5:
            self.bad.append(what)

    # -- steps -------------------------------------------------------------
    def func(self, spec, entry, world_eq):
        """the function of a derivation step; world_eq: the library's
        equation if it is handed to the library, None for the model"""
        import qnet as q
        name = spec[0]
        calls = [0]

        def f(e, *args, **kw):
            calls[0] += 1
            if name == 'add':
                return e + self.pool[entry.kind][spec[1] % len(
                    self.pool[entry.kind])]
            if name == 'times':
                return spec[1] * e
            if name == 'same':
                return e
            if name == 'const':
                return self.pool[entry.kind][spec[1] % len(
                    self.pool[entry.kind])]
            if name == 'args':
                # positional and keyword arguments arrive
                return e * args[0] if kw == {'k': 7} and len(args) == 1 \
                    else None
            if name == 'adjoint':
                return q.adjoint(e)
            if name == 'fail':
                if calls[0] == spec[1]:
                    raise [Failure, AttributeError, ValueError, KeyError,
                           TypeError][spec[2] % 5]('callback')
                return e
            if name == 'reenter':
                # the callback derives from the very same equation
                if world_eq is not None:
                    p = self.pool[entry.kind]
                    new = p[spec[1] % len(p)]
                    other = world_eq.apply_to_rhs(
                        lambda r: new, cont=bool(spec[2]), tag='re')
                    lines = entry.lines
                    lines = (lines if spec[2] else ()) + ((
                        None if spec[2] else lhs_of(entry.lines),
                        new, 're'),)
                    self.pending.append((other, lines, entry.kind))
                    str(world_eq)
                return e
            raise KeyError(name)
        return f

    def derive_real(self, st, entry):
        eq = entry.eq
        how, spec = st['how'], st['f']
        kw = {}
        if 'cont' in st:
            kw['cont'] = st['cont']
        if 'tag' in st:
            kw['tag'] = st['tag']
        if how.startswith('apply_mtd'):
            return getattr(eq, how)(*spec, **kw)
        if how == 'substitute':
            return eq.substitute(self.var_map(spec), **kw)
        f = self.func(spec, entry, eq)
        if spec[0] == 'args':
            return getattr(eq, how)(f, spec[1], k=7, **kw)
        return getattr(eq, how)(f, **kw)

    def var_map(self, spec):
        import sympy
        import qnet as q
        return {0: {sympy.Symbol('x'): 2}, 1: {sympy.Symbol('zzz'): 2},
                2: {q.OperatorSymbol('A', hs=1): q.OperatorSymbol('B', hs=1)},
                3: {sympy.Symbol('x'): sympy.Symbol('y')},
                4: {}}[spec[0]]

    def derive_model(self, st, entry):
        import qnet as q
        lines = entry.lines
        how, spec = st['how'], st['f']
        cont = st.get('cont', False)
        tag = norm_tag(st.get('tag'))
        if how.startswith('apply_mtd'):
            def f(e):
                return getattr(e, spec[0])(*spec[1:])
        elif how == 'substitute':
            vm = self.var_map(spec)

            def f(e):
                return q.substitute(e, var_map=vm)
        else:
            g = self.func(spec, entry, None)

            def f(e):
                if spec[0] == 'args':
                    return g(e, spec[1], k=7)
                return g(e)
        lhs, rhs = lhs_of(lines), lines[-1][1]
        if how.endswith('_to_lhs'):
            nl, nr = f(lhs), rhs
        elif how.endswith('_to_rhs'):
            nl = None if cont else lhs
            nr = f(rhs)
        else:
            nl = f(lhs)
            if cont and nl == lhs:
                nl = None
            nr = f(rhs)
        return (lines if cont else ()) + ((nl, nr, tag),)

    def arith_real(self, op, eq, other):
        return {'add': lambda: eq + other, 'radd': lambda: other + eq,
                'sub': lambda: eq - other, 'mul': lambda: eq * other,
                'rmul': lambda: other * eq, 'div': lambda: eq / other}[op]()

    def arith_model(self, op, a, b):
        return {'add': lambda: a + b, 'radd': lambda: a + b,
                'sub': lambda: a - b, 'mul': lambda: a * b,
                'rmul': lambda: b * a, 'div': lambda: a / b}[op]()

    def copy_real(self, eq, how):
        if how == 'copy':
            return eq.copy()
        if how == 'copy.copy':
            return copy.copy(eq)
        if how == 'deepcopy':
            return copy.deepcopy(eq)
        if how == 'pickle':
            return pickle.loads(pickle.dumps(eq))
        if how == 'set_tag_same':
            return eq.set_tag(eq.tag)

    def call(self, fn):
        """call the library as a client"""
        gate = jobs.INTERP.thread_gate
        if gate is not None:
            gate.enter()
        jobs.INTERP.active = True
        try:
            return fn(), None
        except (Exception, KeyboardInterrupt, SystemExit) as exc:
            return None, exc
        finally:
            jobs.INTERP.active = False
            if gate is not None:
                gate.leave()

    def outside(self, fn):
        try:
            return fn(), None
        except Exception as exc:
            return None, exc

    def event(self, st, local=None, faulty=False):
        """one client operation, on the real thing and on the model"""
        import qnet as q
        ents = self.entries if local is None else local

        def get(i):
            return ents.get(i) or self.entries.get(i)
        do = st['do']
        pend = self.pending
        if do == 'new':
            p = self.pool[st['kind']]
            l, r = p[st['l'] % len(p)], p[st['r'] % len(p)]
            tag = st.get('tag')
            eq, exc = self.call(lambda: q.Eq(l, r, tag=tag))
            self.settle(st, ents, eq, exc, ((l, r, norm_tag(tag)),), None,
                        st['kind'], faulty)
            return
        e = get(st['of'])
        if e is None:
            return
        n0 = len(pend)
        if do == 'derive':
            eq, exc = self.call(lambda: self.derive_real(st, e))
            lines, mexc = self.outside(lambda: self.derive_model(st, e))
            self.settle(st, ents, eq, exc, lines, mexc, e.kind, faulty)
        elif do == 'tag':
            eq, exc = self.call(lambda: e.eq.set_tag(st['tag']))
            l, r, _ = e.lines[-1]
            self.settle(st, ents, eq, exc,
                        e.lines[:-1] + ((l, r, norm_tag(st['tag'])),), None,
                        e.kind, faulty)
        elif do == 'copy':
            eq, exc = self.call(lambda: self.copy_real(e.eq, st['how']))
            self.settle(st, ents, eq, exc, e.lines, None, e.kind, faulty)
        elif do == 'arith':
            if 'with' in st:
                o = get(st['with'])
                if o is None or o.kind != e.kind:
                    return
                real, ml, mr = o.eq, lhs_of(o.lines), o.lines[-1][1]
            else:
                p = self.pool[st.get('pool', e.kind)]
                real = ml = mr = p[st['expr'] % len(p)]
            eq, exc = self.call(lambda: self.arith_real(st['op'], e.eq, real))
            lines, mexc = self.outside(lambda: ((
                self.arith_model(st['op'], lhs_of(e.lines), ml),
                self.arith_model(st['op'], e.lines[-1][1], mr), None),))
            self.settle(st, ents, eq, exc, lines, mexc, e.kind, faulty)
        elif do == 'read':
            self.read(st, e, faulty)
        elif do == 'drop':
            if local is None:
                self.entries.pop(st['of'], None)
        for k, (eq, lines, kind) in enumerate(pend[n0:]):
            ents['%s/%d' % (st['id'], k)] = Entry(eq, lines, kind)
        del pend[n0:]

    def settle(self, st, ents, eq, exc, lines, mexc, kind, faulty):
        name = '%s %s' % (st['id'], {
            k: v for k, v in st.items() if k not in ('t', 'id')})
        if faulty and exc is not None:
            # the injected exception, or what the library made of it
            return
        if (exc is None) != (mexc is None) or (
                exc is not None and type(exc) is not type(mexc)
                and st['do'] == 'derive'):
            self.say('%s: expected %s, got %s' % (
                name, type(mexc).__name__ if mexc else 'an equation',
                type(exc).__name__ if exc else 'an equation'))
            return
        if exc is not None:
            return
        ents[st['id']] = Entry(eq, lines, kind)

    def read(self, st, e, faulty):
        what = st['what']
        lhs, rhs = lhs_of(e.lines), e.lines[-1][1]
        if what in ('free_symbols', 'bound_symbols', 'all_symbols'):
            def syms(x):
                r = set()
                if what in ('free_symbols', 'all_symbols'):
                    r |= set(getattr(x, 'free_symbols', ()))
                if what in ('bound_symbols', 'all_symbols'):
                    r |= set(getattr(x, 'bound_symbols', ()))
                return r
            got, exc = self.call(lambda: getattr(e.eq, what))
            want, mexc = self.outside(lambda: syms(lhs) | syms(rhs))
        elif what == 'as_dict':
            got, exc = self.call(lambda: e.eq.as_dict)
            want, mexc = self.outside(lambda: {lhs: rhs})
        elif what == 'verify':
            got, exc = self.call(lambda: e.eq.verify())
            want, mexc = self.outside(
                lambda: lhs.expand().simplify_scalar()
                - rhs.expand().simplify_scalar())
        elif what == 'verify_func':
            got, exc = self.call(lambda: e.eq.verify(lambda r, k: k * r, 2))
            want, mexc = self.outside(
                lambda: 2 * (lhs.expand().simplify_scalar()
                             - rhs.expand().simplify_scalar()))
        elif what == 'eq':
            got, exc = self.call(lambda: [e.eq == e.eq, e.eq == e.eq.copy()])
            want, mexc = [True, True], None
        else:
            got, exc = self.call(lambda: self.render(e.eq, what))
            if exc is None:
                self.check_text(st['id'], e, what, got)
            elif not faulty:
                want, mexc = self.outside(lambda: [
                    self.render(x, what) for l in e.lines for x in l[:2]
                    if x is not None])
                if mexc is None:
                    self.say('%s: %s raised %s' % (st['id'], what, exc))
            return
        if faulty and exc is not None:
            return
        if (exc is None) != (mexc is None):
            self.say('%s: %s: expected %s, got %s' % (
                st['id'], what, mexc or want, exc or got))
        elif exc is None:
            fp = dsl.FP()
            if fp.digest(got) != fp.digest(want):
                self.say('%s: %s gives %s instead of %s' % (
                    st['id'], what, got, want))
            if st.get('vandalise') and isinstance(got, (set, dict)):
                got.clear()

    def render(self, x, what):
        import qnet as q
        return {'str': str, 'repr': repr, 'ascii': q.ascii,
                'unicode': q.unicode, 'latex': q.latex,
                '_repr_latex_': q.latex}[what](x)

    def check_text(self, name, e, what, got):
        self.n_checks += 1
        if what in ('latex', '_repr_latex_'):
            at = 0
            for l, r, t in e.lines:
                for x in (l, r):
                    if x is None:
                        continue
                    s = self.render(x, what)
                    i = got.find(s, at)
                    if i < 0:
                        self.say('%s: %s does not show %r (in order): %r' % (
                            name, what, s, got))
                        return
                    at = i + len(s)
                if t is not None:
                    i = got.find(r'\tag{%s}' % t, at)
                    if i < 0:
                        self.say('%s: %s does not show tag %r: %r' % (
                            name, what, t, got))
                        return
                    at = i
            tags = sum(1 for l in e.lines if l[2] is not None)
            if got.count(r'\tag{') != tags:
                self.say('%s: %s shows other tags: %r' % (name, what, got))
            if len(e.lines) > 1 and got.count('&=') != len(e.lines):
                self.say('%s: %s shows %d lines instead of %d: %r' % (
                    name, what, got.count('&='), len(e.lines), got))
            return
        want = []
        for l, r, t in e.lines:
            s = '' if l is None else self.render(l, what)
            s += ' = ' + self.render(r, what)
            if t is not None:
                s += ' (%s)' % self.render(t, what)
            want.append(' '.join(s.split()))
        shown = [' '.join(s.split()) for s in got.split('\n')]
        want = '\n'.join(want).split('\n')
        if shown != want:
            self.say('%s: %s shows %r instead of %r' % (
                name, what, shown, want))

    # -- invariants --------------------------------------------------------
    def check(self, label, rnd=0):
        """every equation is what its model says"""
        fp = dsl.FP()
        for n, (name, e) in enumerate(sorted(self.entries.items())):
            lhs, rhs, tag = lhs_of(e.lines), e.lines[-1][1], e.lines[-1][2]
            try:
                now = (fp.digest(e.eq.lhs), fp.digest(e.eq.rhs),
                       fp.digest(e.eq.tag))
            except Exception as exc:
                self.say('%s: equation %s: %s' % (label, name, exc))
                continue
            self.n_checks += 1
            if now != (fp.digest(lhs), fp.digest(rhs), fp.digest(tag)):
                self.say('%s: equation %s is %s = %s (%s) instead of %s = %s '
                         '(%s)' % (label, name, e.eq.lhs, e.eq.rhs, e.eq.tag,
                                   lhs, rhs, tag))
            for what in [['str', 'latex', 'ascii', 'unicode'][(n + rnd) % 4]]:
                try:
                    got = self.render(e.eq, what)
                except Exception:
                    continue
                self.check_text('%s, equation %s' % (label, name), e, what,
                                got)


def world(ses):
    if not hasattr(ses, 'eqworld'):
        ses.eqworld = World()
    return ses.eqworld


def report(w):
    bad, w.bad = w.bad, []
    return bad


def do_eq(ses, st):
    w = world(ses)
    fault = 'picks' in st or 'at' in st
    r = {}
    if fault:
        _, r['fired'], locs = ses.faulted(
            st, lambda: w.event(st, faulty=True))
        if locs is not None:
            r['picks'] = locs
    else:
        w.event(st)
    ses.eqn = getattr(ses, 'eqn', 0) + 1
    w.check('after %s' % st['id'], ses.eqn)
    r['bad'] = report(w)
    r['n'] = [len(w.entries), w.n_checks]
    return r


def do_eqthreads(ses, st):
    """threads derive from shared equations and their own"""
    w = world(ses)
    n = len(st['evs'])
    locals_ = {}

    def make(i):
        loc = {}

        def body(t):
            for ev in st['evs'][i]:
                w.event(ev, loc)
            locals_[i] = loc
            return True
        return body
    schedule = st.get('schedule', ())
    r = {}
    if 'picks' in st:
        schedule = ses.resolve_schedule(
            st, st['evs'], lambda i: ses.launch(st, [make(i)], (), True))
        r['schedule'] = schedule
    s = ses.launch(st, [make(i) for i in range(n)], schedule)
    for i in sorted(locals_):
        w.entries.update(locals_[i])
    if s.error or any(x is not True for x in s.results):
        w.say('threads did not finish: %s %s' % (s.error, s.results))
    w.check('after the threads')
    r['switches'] = s.switches
    r['points'] = s.counts
    r['bad'] = report(w)
    r['n'] = [len(w.entries), w.n_checks]
    return r
