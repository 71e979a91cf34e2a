"""More kinds of steps of a simulated process."""
import hashlib

from . import dsl


def _text(fn, *args):
    try:
        return fn(*args)
    except Exception as exc:
        return '!' + type(exc).__name__


def do_reprint(ses, st):
    """print again everything a labelled script produced"""
    import qnet as q
    if st['label'] not in ses.scripts:
        return {'reprint': []}
    s, vals, out = ses.scripts[st['label']]
    fns = {'str': str, 'repr': repr, 'ascii': q.ascii, 'unicode': q.unicode,
           'latex': q.latex, 'srepr': q.srepr, 'tree': q.tree}
    res, texts = [], []
    from qnet.algebra.core.abstract_algebra import Expression
    for v in vals:
        expr = isinstance(v, Expression)
        if not expr and not (type(v).__module__ or '').startswith('qnet'):
            continue
        for name in st['fns']:
            if not expr and name not in ('str', 'repr'):
                continue
            t = str(_text(fns[name], v))
            res.append(hashlib.md5(t.encode()).hexdigest()[:12])
            texts.append(t)
    r = {'reprint': res}
    if ses.texts:
        r['rtexts'] = texts
    return r


# --------------------------------------------------------------------------
# storing and loading (P11)
# --------------------------------------------------------------------------

def _ours(v):
    """is `v` an object of the library (or a container of such objects)?"""
    import sympy
    if isinstance(v, (list, tuple)):
        return any(_ours(x) for x in v)
    if isinstance(v, sympy.Basic):
        return True
    return (type(v).__module__ or '').startswith('qnet')


def _eval_ns():
    import collections
    import numpy as np
    import sympy
    import qnet as q
    ns = dict(sympy.__dict__)
    ns.update({n: getattr(q, n) for n in q.__all__})
    from sympy.physics.quantum.dagger import Dagger
    ns['Dagger'] = Dagger
    # (in representations this is the function inside a ScalarValue)
    ns['KroneckerDelta'] = sympy.KroneckerDelta
    ns.update(int64=np.int64, float64=np.float64, complex128=np.complex128,
              array=np.array, dtype=np.dtype, object=object,
              OrderedDict=collections.OrderedDict, inf=float('inf'))
    return ns


def _copied(v, how):
    import copy
    import pickle
    if how == 'copy':
        return copy.copy(v)
    if how == 'deepcopy':
        return copy.deepcopy(v)
    return pickle.loads(pickle.dumps(v, int(how[6:])))


def do_store(ses, st):
    """serialise values of a labelled script: only these bytes survive"""
    import base64
    import pickle
    s, vals, out = ses.scripts[st['label']]
    res = []
    for i in st['which']:
        v = vals[i]
        if isinstance(v, dsl.Skip):
            res.append(['skip'])
            continue
        try:
            if st['how'] == 'srepr':
                import qnet as q
                from qnet.algebra.core.abstract_algebra import Expression
                if isinstance(v, (Expression, q.Matrix)):
                    b = q.srepr(v).encode()
                else:
                    b = pickle.dumps(v)
            else:
                b = pickle.dumps(v, int(st['how'][6:]))
        except Exception as exc:
            res.append(['fail', type(exc).__name__, str(exc)[:200],
                        _ours(v)])
            continue
        res.append(['ok', base64.b64encode(b).decode()])
    if st.get('together') and st['how'] != 'srepr':
        keep = [vals[i] for i, r in zip(st['which'], res) if r[0] == 'ok']
        b = pickle.dumps(keep, int(st['how'][6:]))
        return {'stored': res, 'all': base64.b64encode(b).decode()}
    return {'stored': res}


def do_load(ses, st):
    """load stored values (a failing load of a truncated file first)"""
    import base64
    import pickle
    n = st['n']
    vals = [dsl.Skip() for _ in range(n)]
    fp = dsl.FP()
    res = {}
    if st.get('torn') and st.get('all'):
        b = base64.b64decode(st['all'])
        try:
            pickle.loads(b[:int(st['torn'] * len(b))])
            res['torn'] = 'accepted'
        except Exception as exc:
            res['torn'] = '!' + type(exc).__name__
        ses.count('torn_loads')
    together = None
    if st.get('all'):
        try:
            together = iter(pickle.loads(base64.b64decode(st['all'])))
        except Exception as exc:
            res['failed'] = [[-1, type(exc).__name__, str(exc)[:200]]]
            together = None
    fps = {}
    failed = res.setdefault('failed', [])
    for i, r in zip(st['which'], st['stored']):
        if r[0] != 'ok':
            continue
        try:
            if together is not None:
                v = next(together)
            else:
                b = base64.b64decode(r[1])
                if st['how'] == 'srepr' and not b.startswith(b'\x80'):
                    v = eval(b.decode(), _eval_ns())
                else:
                    v = pickle.loads(b)
        except Exception as exc:
            failed.append([i, type(exc).__name__, str(exc)[:200]])
            continue
        vals[i] = v
        fps[str(i)] = fp.digest(v)
        if ses.texts:
            res.setdefault('ltexts', {})[str(i)] = fp.text(v)
    ses.count('loaded', len(fps))
    ses.scripts[st['as']] = (None, vals, None)
    res['fps'] = fps
    return res


def do_duplicate(ses, st):
    """copies of the values of a labelled script, within the process"""
    s, vals, out = ses.scripts[st['label']]
    new = [dsl.Skip() for _ in vals]
    fp = dsl.FP()
    fps, failed = {}, []
    res = {'fps': fps, 'failed': failed}
    for i in st['which']:
        v = vals[i]
        if isinstance(v, dsl.Skip):
            continue
        try:
            new[i] = w = _copied(v, st['how'])
        except Exception as exc:
            if _ours(v):
                failed.append([i, type(exc).__name__, str(exc)[:200]])
            else:
                new[i] = v
            continue
        fps[str(i)] = fp.digest(w)
        if ses.texts:
            res.setdefault('ltexts', {})[str(i)] = fp.text(w)
    ses.count('copied', len(fps))
    ses.scripts[st['as']] = (None, new, None)
    return res


def do_singles(ses, st):
    """the singletons in the values of a labelled script"""
    from . import singles
    vals = ses.scripts[st['label']][1]
    s = st['s'][:len(vals)]
    bad, n = singles.find(vals)
    return {'singles': {'bad': sorted(
        bad + singles.check_ops(s, vals, True), key=str), 'n': n}}


def do_compare(ses, st):
    """loaded values against values built in this process"""
    from qnet.algebra.core.abstract_algebra import Expression
    from qnet.algebra.core.matrix_algebra import Matrix
    from qnet.utils.singleton import Singleton
    a = ses.scripts[st['a']][1]
    b = ses.scripts[st['b']][1]
    bad = []
    n = 0
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, dsl.Skip) or isinstance(y, dsl.Skip) or x is y:
            continue
        if not isinstance(x, (Expression, Matrix)) and not (
                type(x).__module__ or '').startswith('qnet.utils.indices'):
            if not (type(x).__name__ == 'Eq'):
                continue
        n += 1
        try:
            if not (bool(x == y) and bool(y == x)) or x != y:
                bad.append([i, 'not equal'])
                continue
            if type(x).__hash__ is None or type(x).__name__ == 'Eq':
                continue
            if hash(x) != hash(y):
                bad.append([i, 'equal, but the hashes differ'])
            elif {x: 1}.get(y) != 1 or y not in {x} or x not in {y: 2}:
                bad.append([i, 'not found in a dictionary'])
        except Exception as exc:
            bad.append([i, 'raised %s: %s' % (type(exc).__name__,
                                              str(exc)[:100])])
        if isinstance(type(x), Singleton) and x is not y:
            bad.append([i, 'a second instance of a singleton'])
    ses.count('compared', n)
    return {'bad': bad}


def do_resume(ses, st):
    """continue a script on loaded values"""
    vals = list(ses.scripts[st['label']][1])
    k = st['k']
    texts = [] if ses.texts else None
    out = dsl.run_script(_interp(), dsl.FP(), st['s'][k:], vals, texts)
    r = {'out': out}
    if texts is not None:
        r['texts'] = texts
    return r


def _interp():
    from . import jobs
    return jobs.INTERP


def do_eq(ses, st):
    from . import eqsim
    return eqsim.do_eq(ses, st)


def do_eqthreads(ses, st):
    from . import eqsim
    return eqsim.do_eqthreads(ses, st)


def do_lazy(ses, st):
    from . import lazysim
    return lazysim.do_lazy(ses, st)


def do_lazythreads(ses, st):
    from . import lazysim
    return lazysim.do_lazythreads(ses, st)


def do_callbacks(ses, st):
    from . import cbsim
    return cbsim.do_callbacks(ses, st)


def do_cbrule(ses, st):
    from . import cbsim
    return cbsim.do_cbrule(ses, st)


def do_ini(ses, st):
    from . import inisim
    return inisim.do_ini(ses, st)


def do_direct(ses, st):
    from . import inisim
    return inisim.do_direct(ses, st)


def do_pic(ses, st):
    from . import picsim
    return picsim.do_pic(ses, st)


def do_picproc(ses, st):
    from . import picsim
    return picsim.do_picproc(ses, st)


def do_picthreads(ses, st):
    from . import picsim
    return picsim.do_picthreads(ses, st)
