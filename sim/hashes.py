"""Equal expressions have equal hashes, however they came about.

A hash that an expression got while another thread was in the middle of
something (or an exception unwound the computation) silently breaks every
dictionary lookup that involves the expression later on.
"""
import numpy as np
import sympy

from . import dsl


class Seen:
    """a hash that a client got"""

    def __init__(self, value, h):
        self.value = value
        self.hash = h


def _children(o):
    if isinstance(o, (tuple, list)):
        return list(o)
    if isinstance(o, dict):
        return [x for kv in o.items() for x in kv]
    return list(o.args) + [v for k, v in sorted(o.kwargs.items())]


def reachable(values, limit=4000):
    import qnet as q
    seen, out, todo = set(), [], [v for v in values]
    keep = []
    while todo and len(seen) < limit:
        o = todo.pop()
        if id(o) in seen:
            continue
        if isinstance(o, q.Expression):
            out.append(o)
        elif not isinstance(o, (tuple, list, dict)):
            continue
        seen.add(id(o))
        keep.append(o)
        try:
            todo += _children(o)
        except Exception:
            continue
    return out


def _numbers(o, depth=0):
    """the types of all numbers in `o` (numbers of different types may be
    equal without having equal hashes, which is sympy's business)"""
    import qnet as q
    if depth > 30:
        return ()
    if isinstance(o, (q.Expression, tuple, list, dict)):
        try:
            return tuple(t for x in _children(o)
                         for t in _numbers(x, depth + 1))
        except Exception:
            return ()
    if isinstance(o, np.ndarray):
        return tuple(t for x in o.ravel() for t in _numbers(x, depth + 1))
    if isinstance(o, str):
        return ()
    return (type(o).__name__,)


def check(values):
    """problems with the hashes of the expressions reachable from `values`"""
    bad = []
    fp = dsl.FP()
    seen = [v for v in values if isinstance(v, Seen)]
    values = [v.value if isinstance(v, Seen) else v for v in values]
    for v in seen:
        if hash(v.value) != v.hash:
            bad.append('the hash of a %s has changed: %s' % (
                type(v.value).__name__, fp.text(v.value)))
    first = {}
    n = 0
    for e in reachable(values):
        try:
            h = hash(e)
        except TypeError:
            continue
        n += 1
        try:
            d = fp.digest(e)
        except Exception:
            continue
        other = first.setdefault((d, _numbers(e)), e)
        again = [other] if other is not e else []
        try:
            again.append(type(e)(*e.args, **e.kwargs))
        except Exception:
            pass
        for o in again:
            try:
                if o == e and hash(o) != h:
                    bad.append('two equal %s have different hashes: %s' % (
                        type(e).__name__, fp.text(e)))
                    break
            except Exception:
                continue
    return {'n': n, 'bad': sorted(set(bad))[:5]}


def relations(values, seed, pairs=500):
    """are two expressions equal exactly if they have the same structure?"""
    keep, dsl.UNWRAP = dsl.UNWRAP, True
    try:
        return _relations(values, seed, pairs)
    finally:
        dsl.UNWRAP = keep


def _relations(values, seed, pairs):
    import random
    import qnet as q
    rng = random.Random(seed)
    fp = dsl.FP()
    es = []
    # numbers of all kinds
    A = q.OperatorSymbol('A', hs=q.LocalSpace('numbers'))
    extra = []
    for v in rng.sample([np.float64(7), np.int64(7), np.complex128(7j), 7.5,
                         sympy.pi, sympy.Rational(7, 2), 7, 7j], 3):
        extra += [q.ScalarValue.create(v), q.ScalarValue(v)]
        extra += [extra[0] * A, extra[1] * A]
    for e in reachable(list(values) + extra):
        try:
            es.append((fp.digest(e), _numbers(e), e))
        except Exception:
            continue
    if not es:
        return {'n': 0, 'bad': []}
    todo = []
    groups = {}
    for x in es:
        groups.setdefault(x[0], []).append(x)
    for g in groups.values():
        for _ in range(2 if len(g) > 1 else 0):
            todo.append((rng.choice(g), rng.choice(g)))
    # similar ones
    heads = {}
    for x in es:
        heads.setdefault(type(x[2]).__name__, []).append(x)
    names = sorted(heads)
    while len(todo) < pairs:
        if rng.random() < .8:
            g = heads[rng.choice(names)]
        else:
            g = es
        todo.append((rng.choice(g), rng.choice(g)))
    bad = set()
    for (d1, n1, a), (d2, n2, b) in todo:
        want = d1 == d2
        if isinstance(a, q.Scalar) != isinstance(b, q.Scalar):
            # (a multiple of the identity equals the scalar, by definition)
            continue
        try:
            got = [bool(a == b), bool(b == a), not (a != b), not (b != a)]
        except Exception as e:
            if 'asscalar' in str(e):
                # this version of sympy uses a function of numpy that does
                # not exist anymore
                continue
            bad.add('comparing fails with %s: %s, %s' % (
                type(e).__name__, fp.text(a), fp.text(b)))
            continue
        if n1 != n2 and (want or got == [True] * 4):
            # numbers of different types
            continue
        if not want and got == [True] * 4 and any(
                k in fp.text(x) for x in (a, b)
                for k in ('single:Identity', 'single:Trivial')):
            # (the same for parts, e.g. the elements of a matrix)
            continue
        if got != [want] * 4:
            bad.add('[a == b, b == a, not a != b, not b != a] is %s, '
                    'should be %s: a = %s, b = %s' % (
                        got, want, fp.text(a), fp.text(b)))
        if want and n1 == n2 and hash(a) != hash(b):
            bad.add('equal expressions have different hashes: %s' %
                    fp.text(a))
    return {'n': len(todo), 'bad': sorted(bad)[:5]}
