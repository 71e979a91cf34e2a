from .common import *

HOW = ['pickle0', 'pickle1', 'pickle2', 'pickle3', 'pickle4', 'pickle5']


def plain(script):
    """sympy 1.1.1 itself confuses stored symbols that have assumptions"""
    return [dict(op, k={}) if op['f'] == 'Symbol' and op.get('k') else op
            for op in script]


def special(rng):
    """values made with every option of their constructors"""
    from ..config import zoo
    if rng.random() < 0.4:
        return zoo(rng, rng.choice([1, 2, 3]))[0]
    s = []

    def emit(f, *a, **k):
        op = {'f': f, 'a': list(a)}
        if k:
            op['k'] = k
        s.append(op)
        return ['$', len(s) - 1]

    def some(p, **opts):
        return {k: rng.choice(v) for k, v in sorted(opts.items())
                if rng.random() < p}
    syms = [emit('Symbol', n) for n in ('x', 'alpha')]
    i = emit('IdxSym', rng.choice(['i', 'k_1']), **some(
        .4, primed=[0, 1, 2], integer=[True, False]))
    spaces = []
    for n in range(rng.choice([1, 2])):
        label = rng.choice([0, 1, 'q', 'q_1'])
        if rng.random() < .7:
            k = some(.5, order_index=[0, -1, 1, 3], local_identifiers=[
                ['D', [['Destroy', 'b'], ['Create', 'c']]],
                ['D', [['Phase', 'Ph']]], ['D', []]])
            if rng.random() < .5:
                k.update(rng.choice([
                    {'dimension': 1}, {'dimension': 2}, {'dimension': 3},
                    {'basis': ['T', 'g', 'e']}, {'basis': ['T', 'e', 'g']},
                    {'basis': ['T', '0', '1', '2']}]))
            spaces.append(emit('LocalSpace', label, **k))
        else:
            k = some(.3, order_index=[0, -1, 1, 3], local_identifiers=[
                ['D', [['Jz', 'Z'], ['Jplus', 'Jp']]]])
            sp = rng.choice([1, ['R', '1/2'], ['T', 1, 2]])
            if rng.random() < .4:
                k['basis'] = ['T'] + list('abc' if sp == 1 else 'du')
            spaces.append(emit('SpinSpace', label, spin=sp, **k))
    hs = rng.choice(spaces)
    kind = s[hs[1]]
    e = []
    for _ in range(rng.choice([1, 2, 3])):
        f = rng.choice(['OperatorSymbol', 'KetSymbol', 'LocalSigma',
                        'LocalSigma', 'BasisKet', 'CoherentStateKet',
                        'Destroy', 'Displace', 'sum', 'range', 'list',
                        'prod', 'drv', 'comm', 'inv', 'circ', 'cc', 'tr',
                        'super', 'eq', 'scalar', 'mat'])
        h = emit('op.mul', *spaces) if len(spaces) > 1 and \
            rng.random() < .4 else hs
        lev = rng.choice([0, 0, 1])
        if f == 'prod':
            e.append(emit('op.mul', h, emit('LocalSpace', 'zz')))
        elif f in ('OperatorSymbol', 'KetSymbol'):
            e.append(emit(f, rng.choice(['A', 'Psi', emit(
                'StrLabel', emit('h.indexed_base', 'a', i))]),
                *rng.choice([[], [syms[0]], syms]), hs=h))
        elif f == 'LocalSigma':
            e.append(emit(f, *rng.choice([
                [lev, lev], [0, 1], [emit('FockIndex', i), 0]]), hs=hs))
        elif f == 'BasisKet':
            e.append(emit(f, rng.choice([lev, emit('FockIndex', i)]), hs=hs))
        elif f == 'CoherentStateKet':
            e.append(emit(f, syms[0], hs=hs))
        elif f == 'Destroy':
            if kind['f'] == 'SpinSpace':
                f = rng.choice(['Jz', 'Jplus', 'Jminus'])
            e.append(emit(f, hs=hs))
        elif f == 'Displace':
            e.append(emit(rng.choice(['Displace', 'Squeeze', 'Phase']),
                          syms[1], hs=hs))
        elif f in ('sum', 'range', 'list'):
            j = emit('IdxSym', 'i')
            term = emit('BasisKet', emit('FockIndex', j), hs=hs)
            rg = {'sum': lambda: emit('IndexOverFockSpace', j, hs=hs),
                  'range': lambda: emit(
                      'IndexOverRange', j, rng.choice([0, 1]),
                      rng.choice([2, 3]), *rng.choice([[], [1], [2]])),
                  'list': lambda: emit('IndexOverList', j,
                                       ['T', 0, 1])}[f]()
            e.append(emit('KetIndexedSum', term, rg))
        elif f == 'drv':
            e.append(emit('.diff', emit('OperatorSymbol', 'A', *syms, hs=h),
                          syms[0], n=rng.choice([1, 2])))
            if rng.random() < .6:
                e.append(emit('.evaluate_at', e[-1],
                              ['D', [[syms[0], rng.choice([0, 1])]]]))
        elif f == 'comm':
            e.append(emit('Commutator.create',
                          emit('OperatorSymbol', 'A', hs=h),
                          emit('OperatorSymbol', 'B', hs=h)))
        elif f == 'inv':
            e.append(emit(rng.choice(['PseudoInverse.create',
                                      'NullSpaceProjector.create']),
                          emit('OperatorSymbol', 'A', hs=h)))
        elif f == 'cc':
            e.append(emit('OperatorPlusMinusCC.create',
                          emit('OperatorSymbol', 'A', hs=h),
                          sign=rng.choice([1, -1])))
        elif f == 'tr':
            e.append(emit('OperatorTrace.create',
                          emit('OperatorSymbol', 'A', hs=h), over_space=hs))
        elif f == 'super':
            e.append(emit(rng.choice(['SPre', 'SPost']),
                          emit('OperatorSymbol', 'A', hs=h)))
        elif f == 'scalar':
            e.append(emit('BraKet.create', emit('KetSymbol', 'a', hs=h),
                          emit('KetSymbol', 'b', hs=h)))
        elif f == 'mat':
            e.append(emit('Matrix', ['L', ['L', emit(
                'OperatorSymbol', 'A', hs=h), syms[0]], ['L', 0, 1]]))
        elif f == 'eq':
            e.append(emit('Eq', emit('OperatorSymbol', 'A', hs=h),
                          emit('OperatorSymbol', 'B', hs=h)))
        elif f == 'circ':
            c = emit('CircuitSymbol', 'C', *rng.choice([[], [syms[0]]]),
                     cdim=rng.choice([2, 3]))
            z = rng.random()
            if z < .3:
                e.append(emit('SeriesInverse.create', c))
            elif z < .6:
                e.append(emit('.feedback', c, out_port=rng.choice([0, 1]),
                              in_port=rng.choice([0, 1])))
            elif z < .8:
                e.append(emit('CPermutation.create', ['T', 1, 2, 0]))
            else:
                k = some(.5, label=['b1', 'bs_2'])
                e.append(emit(rng.choice(['PhaseCC', 'CoherentDriveCC']),
                              **k))
    rng.shuffle(e)
    for x in e[:2]:
        if rng.random() < .5:
            emit(rng.choice(['op.neg', '.adjoint', 'op.mul2']), x) \
                if rng.random() < .7 else emit('op.mul', 2, x)
    for op in s:
        if op['f'] == 'op.mul2':
            op['f'], op['a'] = 'op.mul', [op['a'][0], syms[0]]
    return s


class PROP(Prop):
    id = 'P11'
    quick = 700
    thorough = 14000
    envs = [('0', '0'), ('11', '5'), ('77', '3')]
    rule = ('A run stops one simulated process in the middle of a client '
            'script; only the stored bytes (pickle of any protocol, together '
            'or one by one, or the source representation) of the values '
            'needed later survive; another process with another hash seed, '
            'class hashes and history loads them (after a failing load of a '
            'torn file), compares them with newly built ones and continues '
            'the script. In other runs the values are copied or deep-copied '
            'within the process. Non-trivial: at least one library object '
            'was loaded or copied; distinct by all outcomes.')
    assumptions = ['sympy symbols have no assumptions (sympy 1.1.1 restores '
                   'these on the wrong symbol); index symbols of QNET may']

    def gen(self, rng, i):
        fam = family(rng, {'printing': 1.0 if rng.random() < .4 else 0},
                     bases=rng.choice([1, 2]), siblings=rng.choice([1, 3]))
        fam = [plain(s) for s in fam]
        s = fam[0]
        hist = lambda: [rng.choice(fam)
                        for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        mode = rng.choice(['restart', 'restart', 'restart', 'restart',
                           'srepr', 'copy', 'copy'])
        case = {'s': s, 'k': rng.randint(1, max(1, len(s) - 1)),
                'mode': mode, 'h1': hist(), 'h2': hist(),
                'fresh': rng.choice(['before', 'after', 'none']),
                'env1': rng.randrange(3), 'env2': rng.randrange(3)}
        if rng.random() < .25:
            case['s'] = s = [plain([op])[0] for op in special(rng)]
            case['k'] = len(s)
            case['h1'], case['h2'] = case['h1'][:1], case['h2'][:1]
            case['mode'] = mode = rng.choice(['restart', 'srepr', 'srepr',
                                              'srepr', 'copy'])
        if mode == 'restart':
            case['how'] = rng.choice(HOW)
            case['together'] = rng.random() < 0.5
            if case['together'] and rng.random() < .3:
                case['torn'] = round(rng.random(), 3)
        elif mode == 'srepr':
            case['how'] = 'srepr'
        else:
            case['how'] = rng.choice(['copy', 'deepcopy', 'deepcopy'] + HOW)
        return case

    def scripts(self, case):
        return [case['s']] + case['h1'] + case['h2']

    def which(self, case):
        """the values that are stored: what the rest of the script needs,
        and the most recent ones"""
        s, k = case['s'], case['k']
        need = set()
        for op in s[k:]:
            need |= {r for r in list(gen.refs(op.get('a', []))) +
                     list(gen.refs(op.get('k') or {})) if r < k}
        return sorted(need | set(range(max(0, k - 4), k)))

    def evaluate(self, case, ctx, texts=False):
        s, k = case['s'], min(case['k'], len(case['s']))
        which = self.which(case)
        e1, e2 = self.envs[case['env1']], self.envs[case['env2']]
        if case['mode'] == 'copy':
            e2 = e1
        vs = []
        unwrap = case['mode'] == 'srepr'
        ref = ctx.ref_session([{'t': 'script', 's': s}], env=e2, texts=texts,
                              unwrap=unwrap)['steps'][0]
        hist = lambda h: [{'t': 'script', 's': x} for x in h]
        first = {'t': 'script', 's': s[:k], 'label': 'A'}
        fresh = {'t': 'script', 's': s[:k], 'label': 'B'}
        n_lib = 0
        if case['mode'] == 'copy':
            steps = hist(case['h1']) + [first] + hist(case['h2']) + [
                {'t': 'duplicate', 'label': 'A', 'as': 'L',
                 'which': which, 'how': case['how']}]
            at = len(steps) - 1
        else:
            st1 = hist(case['h1']) + [first, {
                't': 'store', 'label': 'A', 'which': which,
                'how': case['how'], 'together': case.get('together')}]
            r1 = ctx.session(st1, env=e1)
            stored = r1['steps'][-1]
            ctx.fault('process_restart')
            for i, x in zip(which, stored['stored']):
                if x[0] == 'fail' and x[3]:
                    vs.append(Violation('store', (
                        'storing the value of operation %s failed: %s: %s' % (
                            self.op(s, i), x[1], x[2]))))
                    return vs, {}
            usable = [w for w, x in zip(which, stored['stored'])
                      if x[0] != 'fail']
            if len(usable) < len(which):
                # e.g. functions: nothing that needs to be storable
                raise Skipped('a foreign value cannot be stored')
            steps = hist(case['h2'])
            if case['fresh'] == 'before':
                steps.append(fresh)
            at = len(steps)
            steps.append({'t': 'load', 'as': 'L', 'which': which,
                          'how': case['how'], 'n': k,
                          'stored': stored['stored'],
                          'all': stored.get('all'),
                          'torn': case.get('torn')})
        if case['mode'] == 'copy' or case['fresh'] == 'after':
            steps.append(fresh)
        if any(st.get('label') == 'B' for st in steps):
            steps.append({'t': 'compare', 'a': 'L', 'b': 'B'})
        if case['mode'] == 'copy':
            steps.append({'t': 'compare', 'a': 'L', 'b': 'A'})
        steps.append({'t': 'resume', 'label': 'L', 's': s, 'k': k})
        res_at = len(steps) - 1
        steps.append({'t': 'script', 's': s})
        if case['mode'] == 'copy':
            steps.append({'t': 'recheck', 'label': 'A'})
        res = ctx.session(steps, env=e2, texts=texts, unwrap=unwrap)
        got = res['steps']
        for f in got[at].get('failed', ()):
            vs.append(Violation('load', 'loading/copying the value of '
                                'operation %s failed: %s: %s' % (
                                    self.op(s, f[0]), f[1], f[2])))
            return vs, {}
        if 'torn' in got[at]:
            ctx.fault('torn_file')
        for i, d in got[at]['fps'].items():
            i = int(i)
            n_lib += 1
            if d != ref['out'][i] and not ref['out'][i].startswith('?'):
                vs.append(Violation('content', (
                    'the loaded value of operation %s is not the stored one '
                    '(reference %s, loaded %s)%s' % (
                        self.op(s, i), ref['out'][i], d,
                        '\n   reference: %s\n   loaded:    %s' % (
                            ref['texts'][i], got[at]['ltexts'][str(i)])
                        if texts else ''))))
                return vs, {}
        for st, r in zip(steps, got):
            if st['t'] == 'compare':
                for b in r['bad']:
                    vs.append(Violation('equality', (
                        'the value of operation %s and its %s: %s' % (
                            self.op(s, b[0]), 'copy' if case['mode'] == 'copy'
                            else 'loaded counterpart', b[1]))))
                    return vs, {}
        bad = compare(ref['out'][k:], got[res_at]['out'])
        if bad:
            i = bad[0]
            vs.append(Violation('continuation', 'continuing with the loaded '
                                'values: ' + first_diff(
                                    ctx, s[k:], ref['out'][k:],
                                    got[res_at]['out'], i,
                                    ref['texts'][k:] if texts else None,
                                    got[res_at].get('texts'))))
            return vs, {}
        check_script(ctx, None, got[res_at + 1], ref, 'aftermath', vs, texts,
                     s, 'the script in the loading process: ')
        if not vs and case['mode'] == 'copy' and \
                got[-1]['out'] != ref['out'][:k]:
            vs.append(Violation('aftermath', 'the originals changed'))
        ctx.probe('values_' + case['how'], n_lib)
        ctx.probe('mode_' + case['mode'])
        return vs, {'sig': digest(got[at:]), 'nontrivial': n_lib > 0}

    def op(self, s, i):
        from .. import dsl
        return dsl.fmt_script(s)[i] if 0 <= i < len(s) else '(all)'

    def render(self, case):
        from .. import dsl
        lines = ['%s, split before operation %d, %s' % (
            case['mode'], case['k'], {
                x: case[x] for x in ('how', 'together', 'torn', 'fresh',
                                     'env1', 'env2') if x in case})]
        for name in ('h1', 'h2'):
            for h in case[name]:
                lines.append('history (%s):' % (
                    'before storing' if name == 'h1' else 'before loading'))
                lines += ['    ' + l for l in dsl.fmt_script(h)]
        lines.append('script:')
        for i, l in enumerate(dsl.fmt_script(case['s'])):
            if i == case['k']:
                lines.append('    ---- stored, loaded ----')
            lines.append('    ' + l)
        return lines

    def shrink(self, case):
        for name in ('h1', 'h2'):
            for i in range(len(case[name])):
                yield dict(case, **{name: case[name][:i] +
                                    case[name][i + 1:]})
        for key, v in (('fresh', 'none'), ('torn', None),
                       ('together', False), ('env1', 0), ('env2', 0)):
            if case.get(key, v) != v:
                yield dict(case, **{key: v})
        s, k = case['s'], case['k']
        for i in range(len(s) - 1, 0, -1):
            c = gen.slice_to(s, i)
            if len(c) < len(s):
                for kk in range(1, len(c) + 1):
                    yield dict(case, s=c, k=kk)
        for i in reversed(range(len(s))):
            c = gen.drop_op(s, i)
            if c:
                yield dict(case, s=c, k=max(1, k - (i < k)))
        if s[k:]:
            yield dict(case, s=s[:k])
        for name in ('h1', 'h2'):
            for i, h in enumerate(case[name]):
                for j in reversed(range(len(h))):
                    c = gen.drop_op(h, j)
                    if c:
                        yield dict(case, **{name: case[name][:i] + [c] +
                                            case[name][i + 1:]})
