"""Seeded printing configurations, valid and invalid, and probe scripts whose
output reacts to every documented setting."""
import copy

GLOBAL = [
    {'show_hs_label': False}, {'show_hs_label': 'subscript'},
    {'show_hs_label': True}, {'sig_as_ketbra': False},
    {'unicode_op_hats': False}, {'unicode_sub_super': False},
    {'tex_use_braket': True}, {'tex_identity_sym': 'I'},
    {'tex_op_macro': '\\Op{{{name}}}'}, {'tex_frac_for_spin_labels': True},
    {'tex_sop_macro': '\\SOp{{{name}}}'},
    {'inv_trig_style': 'full'}, {'conjg_style': 'star'},
    {'conjg_style': 'overline'}, {'order': 'rev-lex'}, {'order': 'none'},
    {'fold_frac_powers': True}, {'some_unknown_setting': 1},
    {'use_unicode': False}, {'mul_symbol': 'times'},
    {'superscript_asterisk_sym': '#'}, {'sympy_integers': True},
]
FORMATS = ['ascii', 'unicode', 'latex', 'tex', 'srepr', 'indsrepr', 'tree']
ASCII_SET = [{'show_hs_label': False}, {'sig_as_ketbra': False},
             {'show_hs_label': 'subscript'}, {'conjg_style': 'star'},
             {'show_hs_label': True, 'sig_as_ketbra': False}]
UNICODE_SET = [{'show_hs_label': False}, {'unicode_op_hats': False},
               {'unicode_sub_super': False}, {'sig_as_ketbra': False},
               {'superscript_asterisk_sym': '*'}]
LATEX_SET = [{'tex_use_braket': True}, {'tex_identity_sym': 'I'},
             {'tex_op_macro': '\\Op{{{name}}}'}, {'show_hs_label': False},
             {'tex_frac_for_spin_labels': True}, {'inv_trig_style': 'full'},
             {'sig_as_ketbra': False}]
Q = 'qnet.printing.'
PRINTERS = {
    'ascii_printer': ['qnet.utils.testing.QnetAsciiTestPrinter',
                      Q + 'asciiprinter.QnetAsciiPrinter',
                      Q + 'unicodeprinter.QnetUnicodePrinter',
                      Q + 'latexprinter.QnetLatexPrinter'],
    'unicode_printer': [Q + 'unicodeprinter.QnetUnicodePrinter',
                        Q + 'asciiprinter.QnetAsciiPrinter',
                        'qnet.utils.testing.QnetAsciiTestPrinter'],
    'latex_printer': [Q + 'latexprinter.QnetLatexPrinter',
                      'qnet.utils.testing.QnetAsciiTestPrinter'],
    'ascii_sympy_printer': ['sympy.printing.str.StrPrinter',
                            Q + 'sympy.SympyStrPrinter',
                            'sympy.printing.repr.ReprPrinter'],
    'unicode_sympy_printer': ['sympy.printing.str.StrPrinter',
                              Q + 'sympy.SympyStrPrinter'],
    'latex_sympy_printer': ['sympy.printing.latex.LatexPrinter',
                            Q + 'sympy.SympyLatexPrinter'],
}
BAD = [
    {'str_format': 'bogus'}, {'repr_format': 'bogus'}, {'str_format': 5},
    {'repr_format': 'ASCII'}, {'ascii_printer': 'no.such.Printer'},
    {'unicode_printer': Q + 'unicodeprinter.NoSuch'},
    {'latex_printer': 'sympy.printing.str.StrPrinter'},
    {'latex_printer': Q + 'dotprint'}, {'ascii_printer': 'nodots'},
    {'ascii_printer': 5}, {'latex_sympy_printer': 'no.such.Printer'},
    {'unicode_sympy_printer': 'qnet.OperatorSymbol'},
    {'ascii_sympy_printer': 'sympy.printing.str.NoSuch'},
    {'latex_sympy_printer': 'sympy.printing.latex.latex'},
    {'ascii_settings': {'bogus': 1}}, {'unicode_settings': {'bogus': 1}},
    {'latex_settings': {'bogus': 1, 'show_hs_label': False}},
    {'latex_settings': 5}, {'inifile': '/nonexistent/x.ini',
                            'show_hs_label': False},
    {'latex_settings': {'unicode_op_hats': False}},
]


def good(rng, scoped=False):
    kw = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        kw.update(rng.choice(GLOBAL))
    if rng.random() < 0.4:
        kw['str_format'] = rng.choice(FORMATS)
    if rng.random() < 0.4:
        kw['repr_format'] = rng.choice(FORMATS)
    if rng.random() < 0.2:
        kw['caching'] = rng.random() < 0.3
    if rng.random() < 0.2:
        kw['ascii_settings'] = dict(rng.choice(ASCII_SET))
    if rng.random() < 0.2:
        kw['unicode_settings'] = dict(rng.choice(UNICODE_SET))
    if rng.random() < 0.2:
        kw['latex_settings'] = dict(rng.choice(LATEX_SET))
    if rng.random() < 0.15:
        k = rng.choice(sorted(PRINTERS))
        kw[k] = rng.choice(PRINTERS[k])
    if rng.random() < 0.2:
        kw['reset'] = True
    if rng.random() < 0.25:
        kw['init_sympy'] = False
    return kw


def bad(rng):
    kw = good(rng)
    b = copy.deepcopy(rng.choice(BAD))
    if rng.random() < 0.3:
        return b
    kw.update(b)
    return kw


BASE = [
    {'f': 'OperatorSymbol', 'a': ['A'], 'k': {'hs': 1}},
    {'f': 'LocalSigma', 'a': [0, 1], 'k': {'hs': 1}},
    {'f': 'BasisKet', 'a': [1], 'k': {'hs': 1}},
    {'f': 'Symbol', 'a': ['x']},
    {'f': 'op.mul', 'a': [['$', 3], ['$', 0]]},
    {'f': 'OperatorSymbol', 'a': ['B'], 'k': {'hs': 2}},
    {'f': 'op.add', 'a': [['$', 4], ['$', 1]]},
    {'f': 'op.add', 'a': [['$', 6], ['N', 'IdentityOperator']]},
    {'f': 'SPre', 'a': [['$', 1]]},
    {'f': 'op.mul', 'a': [['$', 5], ['$', 7]]},
]


WILD = ['h.print_cached', 'h.print_cached', 'bad_settings', 'number',
        'srepr_ind', 'h.tree_str_opt', 'dotprint_opt', 'tex']


def dotprint(rng, x):
    if rng.random() < 0.2:
        return {'f': 'h.dot_styles', 'a': [x, rng.choice(['red', 'blue'])]}
    return {'f': 'dotprint', 'a': [x], 'k': rng.choice([
        {'repeat': False}, {'maxdepth': 1}, {}, {}, {'rankdir': 'LR'},
        {'bgcolor': 'red', 'repeat': False}, {'ordering': 'in'}])}


def _translate(text):
    from .templates import Translator
    t = Translator().run(text)
    return t.ops, [i for _, i in t.pool]


SETS = {'ascii': ASCII_SET, 'unicode': UNICODE_SET, 'latex': LATEX_SET}
ZOO = _translate('''
idx1 = idx('i'); idx2 = idx('j'); sym1 = sym('alpha'); sym2 = sym('x'); sym3 = sym('beta_mu', real=True); sym4 = ib('S', idx1); sym5 = ib('Sigma_t', idx1, idx2)
hs1 = LocalSpace(1, dimension=2); hs2 = LocalSpace('q_1'); hs3 = hs1 * hs2; hs4 = LocalSpace(3, basis=('g', 'e'))
op1 = OperatorSymbol(StrLabel(sym4), hs=1); op2 = OperatorSymbol(StrLabel(sym5), sym1, hs=hs2)
op3 = OperatorSymbol('Omega', sym1, sym2 ** 2, hs=hs2); op4 = OperatorSymbol('A', hs=hs1); op5 = OperatorSymbol('long_name', hs=hs3)
op6 = Destroy(hs=hs2); op7 = Create(hs=hs2); op8 = LocalSigma('g', 'e', hs=hs4); op9 = LocalSigma(0, 0, hs=hs1); op10 = Displace(sym1, hs=hs2)
op11 = (op3 * op6).dag(); op12 = Commutator.create(op3, op6); op13 = tr(op4 * op3, over_space=hs1); op14 = op3.diff(sym1)
op15 = sy.conjugate(sym1) * op4 + sy.sqrt(sym3) * op4.dag(); op16 = sym2 / sy.sqrt(2) * op3; op17 = (sym1 + 1j) * op6; op18 = OperatorPlusMinusCC.create(op3)
op19 = PseudoInverse.create(op4); op20 = op15 * (op3 + op6); op21 = -op15 - 1; op22 = op1 * op2; op23 = sym1 * op1 + sym2 * op2
ket1 = KetSymbol('Psi', hs=hs3); ket2 = BasisKet(0, hs=hs1); ket3 = CoherentStateKet(sym1, hs=hs2); ket4 = ket2 * ket3; ket5 = op4 * ket2 + sym1 * ket2
ket6 = KetSymbol(StrLabel(sym4), hs=hs2); ket7 = BasisKet(FockIndex(idx1 + 1), hs=hs1); ket8 = KetIndexedSum(sym4 * BasisKet(FockIndex(idx1), hs=hs2), IndexOverRange(idx1, 0, 3))
ket9 = BasisKet('e', hs=hs4); ket10 = BasisKet(0, hs=hs1) * BasisKet('g', hs=hs4); bra1 = ket6.dag(); bra2 = ket5.dag(); bra3 = ket8.dag()
scal1 = KetSymbol('chi', hs=hs1).dag() * ket2; op24 = KetSymbol('chi', hs=hs1) * ket2.dag(); op25 = OperatorIndexedSum(sym4 * op1, IndexOverList(idx1, (1, 2)))
sop1 = SuperOperatorSymbol('L', hs=hs1); sop2 = SPre(op4) * sop1 + 2 * sop1; op26 = sop1 * op24; sop3 = sop2.dag()
scal2 = KetSymbol('a', hs=hs2).dag() * KetSymbol('b', sym1, hs=hs2); op27 = KetSymbol('b', sym1, hs=hs2) * KetSymbol('a', hs=hs2).dag(); scal3 = scal2 * scal2.dag(); op28 = scal2 * op3; scal4 = ket5.dag() * KetSymbol('b', hs=hs1); op29 = (op3 * op6 + op7).dag() * op7; op30 = op4.dag() * op8 * 2
circ1 = CircuitSymbol('C', sym1, cdim=2); circ2 = circ1 << CPermutation.create((1, 0)); circ3 = circ2 + CircuitSymbol('D', cdim=1); circ4 = circ3.feedback(out_port=2, in_port=0); circ5 = SeriesInverse.create(circ1)
mat1 = Matrix([[sym1, op4], [0, 1]]); mat2 = identity_matrix(2)
''')


FORMATS = ['ascii', 'unicode', 'latex', 'srepr', 'h.str', 'h.repr',
           'h.tree_str', 'dotprint']


def zoo(rng, k=None):
    """some special expressions, with all they need -> (script, results)"""
    from .gen import refs, shift
    import copy
    ops, pool = ZOO
    want = rng.sample(pool[7:], k or rng.choice([2, 3, 4, 6]))
    keep, todo = set(), list(want)
    while todo:
        i = todo.pop()
        if i not in keep:
            keep.add(i)
            todo += list(refs(ops[i].get('a', [])))
            todo += list(refs(ops[i].get('k', {})))
    pos = {o: n for n, o in enumerate(sorted(keep))}
    res = []
    for o in sorted(keep):
        op = copy.deepcopy(ops[o])
        op['a'] = shift(op['a'], pos.__getitem__)
        if op.get('k'):
            op['k'] = shift(op['k'], pos.__getitem__)
        res.append(op)
    return res, [pos[i] for i in want]


NAMES = {'OperatorSymbol': ['E', 'F_1', 'Gamma'], 'Symbol': ['y', 'z_0', 'nu'],
         'KetSymbol': ['Phi', 'e_2', 'up'], 'CircuitSymbol': ['K', 'M_1', 'Q'],
         'SuperOperatorSymbol': ['M', 'N_1', 'Lambda'],
         'h.indexed_base': ['T', 'R', 'Upsilon'], 'LocalSpace': ['q_2', 'r', 's'],
         'h.idxsym': ['k', 'l', 'm'], 'IdxSym': ['k', 'l', 'm']}


def relabelled(ops, t):
    """the same expressions with other labels"""
    import copy
    ops = copy.deepcopy(ops)
    for op in ops:
        if op['f'] in NAMES and op['a'] and isinstance(op['a'][0], str):
            op['a'][0] = NAMES[op['f']][t]
        elif op['f'] == 'BasisKet' and op['a'][0] == 0:
            op['a'][0] = 1
    return ops


def zoo_variants(rng, n):
    """(common script, for each of n clients the indices of its own special
    expressions, which differ from those of the others in their labels)"""
    from .gen import shift
    ops, e = zoo(rng, rng.choice([1, 1, 2, 3]))
    out, own = list(ops), [e]
    for t in range(n - 1):
        off = len(out)
        for op in relabelled(ops, t):
            op['a'] = shift(op['a'], lambda i: i + off)
            if op.get('k'):
                op['k'] = shift(op['k'], lambda i: i + off)
            out.append(op)
        own.append([i + off for i in e])
    return out, own


def zoo_probe(rng, fmts=None, k=None):
    """printing special expressions, mostly in one or two formats"""
    s, e = zoo(rng, k)
    return s + zoo_prints(rng, e, fmts or rng.sample(
        FORMATS, rng.choice([1, 2, 2, 8])))


def zoo_prints(rng, e, fmts):
    s = []
    for _ in range(rng.choice([2, 4, 8])):
        f, x = rng.choice(fmts), ['$', rng.choice(e)]
        if f == 'dotprint':
            s.append(dotprint(rng, x))
        elif f in SETS and rng.random() < 0.15:
            s.append({'f': 'h.print_settings', 'a': [f, x],
                      'k': dict(rng.choice(SETS[f]))})
        elif rng.random() < 0.12:
            # any part of the expression may be in the caller's cache
            parts = [n for n, o in enumerate(s)
                     if o['f'] in ('Symbol', 'h.indexed_base', 'LocalSpace',
                                   'OperatorSymbol', 'KetSymbol')]
            s.append({'f': 'h.print_cached', 'a': [
                f if f in SETS else 'latex', x,
                ['$', rng.choice(parts or [x[1]])], 'CACHED']})
        else:
            s.append({'f': f, 'a': [x]})
    return s


def any_probe(rng, wild=False):
    if rng.random() < 0.5:
        return zoo_probe(rng)
    return probe(rng, wild=wild)


def prefill(rng):
    """printing so many expressions that a bounded cache would be full"""
    cap = rng.choice([16, 32, 50, 64, 100, 100, 128, 200, 256, 500, 512,
                      1000, 1024])
    return {'f': 'h.prefill', 'a': [rng.choice(
        ['ascii', 'unicode', 'latex', 'repr']), max(1, cap - rng.choice(
            [0, 1, 2, 3, 4, 6, 9, 14, 20]))]}


def probe(rng, n=None, wild=False):
    """expressions and some printing calls on them"""
    s = [dict(o) for o in BASE]
    z = rng.random()
    e = [0, 1, 2, 4, 6, 7, 8, 9]
    if z < 0.5:
        s.append({'f': 'SpinSpace', 'a': ['s'], 'k': {'spin': ['R', '3/2']}})
        s.append({'f': 'SpinBasisKet', 'a': [1, 2],
                  'k': {'hs': ['$', len(s) - 1]}})
        e.append(len(s) - 1)
    if rng.random() < 0.5:
        s.append({'f': 'h.conj', 'a': [['$', 3]]})
        s.append({'f': 'op.mul', 'a': [['$', len(s) - 1], ['$', 1]]})
        e.append(len(s) - 1)
    if rng.random() < 0.3:
        s.append({'f': 'CircuitSymbol', 'a': ['C'], 'k': {'cdim': 2}})
        e.append(len(s) - 1)
    if rng.random() < 0.4:
        s.append({'f': 'Pattern', 'a': [],
                  'k': {'head': ['N', 'OperatorPlus'],
                        'args': ['L', ['$', 4], ['W', 'X', 0]]}})
        s.append({'f': rng.choice(['h.str', 'h.repr']),
                  'a': [['$', len(s) - 1]]})
    for _ in range(n or rng.choice([2, 4, 6])):
        x = ['$', rng.choice(e)]
        f = rng.choice(['ascii', 'ascii', 'unicode', 'unicode', 'latex',
                        'latex', 'h.str', 'h.repr', 'srepr', 'h.tree_str',
                        'h.repr_latex', 'h.format', 'h.sympy_print',
                        'print_settings']
                       + (WILD if wild else []))
        if f == 'h.sympy_print':
            s.append({'f': f, 'a': []})
        elif f == 'print_settings':
            fmt = rng.choice(['ascii', 'unicode', 'latex'])
            kw = dict(rng.choice({'ascii': ASCII_SET, 'unicode': UNICODE_SET,
                                  'latex': LATEX_SET}[fmt]))
            s.append({'f': 'h.print_settings', 'a': [fmt, x], 'k': kw})
        elif f == 'h.print_cached':
            s.append({'f': f, 'a': [rng.choice(['ascii', 'unicode', 'latex',
                                                'srepr']),
                                    x, ['$', rng.choice(e + [3, 3, 3])],
                                    'CACHED']})
        elif f == 'bad_settings':
            s.append({'f': 'h.print_settings',
                      'a': [rng.choice(['ascii', 'unicode', 'latex']), x],
                      'k': {'bogus': 1}})
        elif f == 'number':
            s.append({'f': rng.choice(['ascii', 'unicode', 'latex']), 'a': [
                rng.choice([1, 2, -1, ['R', '1/2'], ['C', 0.0, 1.0], 'text',
                            ['F', 0.5], ['N', 'wc'], ['T', 1, 2], None])]})
        elif f == 'srepr_ind':
            s.append({'f': 'srepr', 'a': [x], 'k': {'indented': True}})
        elif f == 'h.tree_str_opt':
            s.append({'f': 'h.tree_str', 'a': [x], 'k': rng.choice([
                {'unicode': False}, {'srepr_leaves': True}, {'depth': 1},
                {'attr': 'args'}])})
        elif f == 'dotprint_opt':
            s.append(dotprint(rng, x))
        else:
            s.append({'f': f, 'a': [x]})
    return s
