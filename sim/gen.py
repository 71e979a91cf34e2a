"""Seeded generator of scripts: small programs over QNET's public API.

Names are drawn from deliberately tiny alphabets so that independently
generated scripts build many equal, and many *almost* equal, expressions.
"""
import copy
import random

OPLABELS = ['A', 'B', 'C', 'H', 'alpha']
KETLABELS = ['Psi', 'Phi', 'a']
CLABELS = ['P', 'Q', 'R']
SYMS = [('x', {}), ('y', {}), ('t', {'real': True}), ('g', {'positive': True}),
        ('w', {})]
IDX = ['i', 'j', 'k']


#: optional arguments of the public functions
OPTIONS = {
    '.diff': {'n': [1, 2], 'expand_simplify': [False, False, True]},
    '.doit': {'recursive': [False, True], 'max_terms': [1, 2]},
    '.expand_in_basis': {'hermitian': [True, False]},
    '.simplify_scalar': {'func': [['N', 'h.sy_expand'],
                                  ['N', 'h.sy_factor']]},
    '.next': {'n': [1, 2]}, '.prev': {'n': [1, 2]},
    '.raise_jk': {'j_incr': [0, 1, -1], 'k_incr': [0, 1]},
    '.next_basis_label_or_index': {'n': [1, 2, -1]},
    '.to_fock_representation': {'index_symbol': ['n', 'm', 'i'],
                                'max_terms': [1, 2, 3]},
    '.symbolic_heisenberg_eom': {'expand_simplify': [False, True]},
    'h.heisenberg': {'expand_simplify': [False, True]},
    'h.connect': {'force_SLH': [False, True],
                  'expand_simplify': [False, True]},
    'connect': {'force_SLH': [False, True],
                'expand_simplify': [False, True]},
    'getABCD': {'doubled_up': [False, True]},
    'expand_commutators_leibniz': {'expand_expr': [False, True]},
    'get_coeffs': {'expand': [True, False], 'epsilon': [['F', 0.1],
                                                        ['F', 1.5]]},
    'move_drive_to_H': {'which': [['L', 0], ['L', 1], ['L', 0, 1]],
                        'expand_simplify': [False, True]},
    'liouvillian_normal_form': {'symbolic': [True, False]},
    'try_adiabatic_elimination': {'fock_trunc': [3, 4],
                                  'sub_P0': [True, False]},
    'KroneckerDelta': {'simplify': [False, True]},
    'KroneckerDelta.create': {'simplify': [False, True]},
    'srepr': {'indented': [True, False]},
    'h.tree_str': {'unicode': [False, True], 'srepr_leaves': [True],
                   'depth': [1, 2]},
    'tree': {'unicode': [False, True], 'srepr_leaves': [True],
             'depth': [1, 2]},
    'dotprint': {'maxdepth': [1, 2], 'repeat': [False]},
    '.feedback': {'out_port': [0, 1, 2], 'in_port': [0, 1, 2]},
    'FB': {'out_port': [0, 1, 2], 'in_port': [0, 1, 2]},
    'diagm': {'k': [1, -1]},
    'Jpjmcoeff': {'shift': [True, False]},
    'Jzjmcoeff': {'shift': [True, False]},
    'Jmjmcoeff': {'shift': [True, False]},
    'PauliX': {'states': [['T', 0, 1], ['T', 1, 0], ['T', 'g', 'e']]},
    'PauliY': {'states': [['T', 0, 1], ['T', 1, 0], ['T', 'g', 'e']]},
    'PauliZ': {'states': [['T', 0, 1], ['T', 1, 0], ['T', 'g', 'e']]},
    'IndexOverRange': {'step': [1, 2]},
    'OperatorPlusMinusCC.create': {'sign': [1, -1]},
    'OperatorPlusMinusCC': {'sign': [1, -1]},
    'LocalSpace': {'order_index': [1, 2, 5, 0, -1]},
    'Beamsplitter': {'label': ['b1', 'b2']},
    'PhaseCC': {'label': ['b1', 'p']},
    'CoherentDriveCC': {'label': ['W', 'p']},
    'h.apply_rule': {'recursive': [True, False]},
    'h.terms_of': {'limit': [1, 3]}, 'h.list': {'limit': [1, 3]},
    'h.rng_iter': {'limit': [1, 3]},
    'SLH_to_qutip': {'convert_as': ['pyfunc', 'str']},
}


def add_option(rng, op, p=1.0):
    """give the call an optional argument"""
    o = OPTIONS.get(op['f'])
    if o and rng.random() < p:
        k = rng.choice(sorted(o))
        n = {'.feedback': 2, 'FB': 2, 'diagm': 1, 'IndexOverRange': 3}.get(
            op['f'])
        if op['f'] == '.diff' and k == 'n' and len(op['a']) > 2:
            return False
        if n and len(op.get('a', ())) > n:
            return False
        op.setdefault('k', {})[k] = copy.deepcopy(rng.choice(o[k]))
        return True
    return False


class G:
    def __init__(self, rng, profile):
        self.rng = rng
        self.p = profile
        self.ops = []
        self.pool = {}

    # -- helpers --------------------------------------------------------
    def emit(self, ty, f, *a, **k):
        op = {'f': f, 'a': list(a)}
        if k:
            op['k'] = k
        add_option(self.rng, op, self.p.get('options', 0.12))
        self.ops.append(op)
        i = len(self.ops) - 1
        if ty:
            for t in (ty if isinstance(ty, tuple) else (ty,)):
                self.pool.setdefault(t, []).append(i)
        return ['$', i]

    def have(self, ty):
        return bool(self.pool.get(ty))

    def pick(self, ty):
        lst = self.pool[ty]
        # prefer recent values
        if self.rng.random() < 0.5:
            return ['$', lst[-1 - min(len(lst) - 1, int(self.rng.expovariate(1)))]]
        return ['$', self.rng.choice(lst)]

    def need(self, ty, fresh=0.35):
        if self.have(ty) and self.rng.random() > fresh:
            return self.pick(ty)
        return getattr(self, 'new_' + ty)()

    def dotcreate(self):
        return '.create' if self.rng.random() < 0.3 else ''

    # -- leaves ---------------------------------------------------------
    def label_hs(self):
        return self.rng.choice([0, 0, 1, 1, 2, 'q', 's'])

    def new_lhs(self):
        r = self.rng
        l = self.label_hs()
        k = {}
        z = r.random()
        if z < 0.35:
            pass
        elif z < 0.65:
            k['dimension'] = r.choice([2, 2, 3, 4])
        elif z < 0.78:
            k['basis'] = ['T'] + r.choice([['g', 'e'], ['e', 'g'],
                                           ['a', 'b', 'c'], ['0', '1']])
        elif z < 0.86:
            k['local_identifiers'] = ['D', [[
                r.choice(['Destroy', 'Create', 'Phase']),
                r.choice(['b', 'c'])]]]
        elif z < 0.94:
            k['order_index'] = r.choice([1, 2, 5, 0, -1])
        else:
            return self.new_shs()
        tys = ['lhs', 'hs']
        if 'dimension' in k or 'basis' in k:
            tys.append('bhs')
        return self.emit(tuple(tys), 'LocalSpace' + self.dotcreate(), l, **k)

    def new_bhs(self):
        r = self.rng
        k = {}
        if r.random() < 0.6:
            k['dimension'] = r.choice([2, 2, 3])
        else:
            k['basis'] = ['T'] + r.choice([['g', 'e'], ['e', 'g'],
                                           ['a', 'b', 'c']])
        return self.emit(('lhs', 'hs', 'bhs'), 'LocalSpace', self.label_hs(),
                         **k)

    def new_shs(self):
        r = self.rng
        k = {}
        spin = r.choice([1, ['R', '1/2'], ['R', '3/2'], ['T', 1, 2]])
        if r.random() < 0.2:
            n = 3 if spin == 1 else 4 if spin == ['R', '3/2'] else 2
            k['basis'] = ['T'] + list(r.choice(['gefh', 'abcd'])[:n])
        if r.random() < 0.15:
            k['order_index'] = r.choice([1, 2, 0])
        return self.emit(('shs', 'bhs', 'lhs', 'hs'),
                         'SpinSpace' + self.dotcreate(),
                         r.choice(['s', 'z', 1]), spin=spin, **k)

    def new_hs(self):
        r = self.rng
        z = r.random()
        if z < 0.5:
            return self.new_lhs()
        if z < 0.85:
            return self.emit('hs', 'op.mul', self.need('lhs'),
                             self.need('lhs'))
        if z < 0.92:
            return self.emit('hs', 'ProductSpace.create', self.need('lhs'),
                             self.need('lhs', 0.8), self.need('lhs', 0.8))
        return ['N', r.choice(['TrivialSpace', 'FullSpace'])]

    def hs_arg(self):
        """value for an `hs` keyword"""
        r = self.rng
        z = r.random()
        if z < 0.5:
            return self.label_hs()
        if z < 0.85 or not self.have('hs'):
            return self.need('lhs', 0.5)
        return self.need('hs', 0.2)

    def lhs_arg(self):
        r = self.rng
        if r.random() < 0.5:
            return self.label_hs()
        return self.need('lhs', 0.4)

    def new_sym(self):
        n, kw = self.rng.choice(SYMS)
        return self.emit('sym', 'Symbol', n, **kw)

    def new_idx(self):
        r = self.rng
        k = {}
        if r.random() < 0.15:
            k['primed'] = r.choice([1, 2])
        if r.random() < 0.1:
            k['integer'] = True
        return self.emit('idx', 'h.idxsym', r.choice(IDX), **k)

    def number(self):
        r = self.rng
        if self.p.get('floats') and r.random() < 0.4:
            return ['F', r.choice([0.5, 1.5, 0.25])]
        z = r.random()
        if z < 0.6:
            return r.choice([0, 1, 2, 2, 3, -1, -2])
        if z < 0.8:
            return ['R', r.choice(['1/2', '1/3', '-1/2', '3/2'])]
        if z < 0.9:
            return ['N1', 0]
        return 2

    def num(self):
        n = self.number()
        if n == ['N1', 0]:
            return self.emit('sscal', 'sympy', 'sqrt', self.rng.choice([2, 3]))
        return n

    def new_sscal(self):
        """a sympy expression or a number"""
        r = self.rng
        z = r.random()
        if z < 0.3:
            return self.num()
        if z < 0.55:
            return self.need('sym')
        if z < 0.7:
            return self.emit('sscal', 'op.mul', self.num(), self.need('sym'))
        if z < 0.8:
            return self.emit('sscal', 'op.add', self.need('sym'),
                             self.need('sym', 0.6))
        if z < 0.85:
            return self.emit('sscal', 'sympy', 'conjugate', self.need('sym'))
        if z < 0.9:
            return self.emit('sscal', 'sympy', 'exp', self.need('sym'))
        if z < 0.95:
            return self.emit('sscal', 'op.pow', self.need('sym'), 2)
        return self.emit('sscal', 'h.indexed_base', r.choice(['a', 'b']),
                         self.need('idx'))

    def new_scal(self):
        r = self.rng
        z = r.random()
        if z < 0.2:
            return self.emit('scal', 'ScalarValue.create', self.new_sscal())
        if z < 0.3:
            return ['N', r.choice(['One', 'Zero'])]
        if z < 0.4:
            return self.emit('scal', 'KroneckerDelta', self.need('idx'),
                             self.need('idx', 0.6))
        if z < 0.65:
            return self.emit('scal', 'BraKet.create', self.need('ket'),
                             self.need('ket', 0.6))
        if z < 0.75:
            return self.emit('scal', 'sqrt', self.need('scal', 0.3)) \
                if self.have('scal') else self.new_scal()
        if self.have('scal'):
            f = r.choice(['op.add', 'op.sub', 'op.mul', 'op.truediv'])
            a, b = self.pick('scal'), (
                self.new_sscal() if r.random() < 0.5 else self.need('scal'))
            if r.random() < 0.5 and f != 'op.truediv':
                a, b = b, a
            return self.emit('scal', f, a, b)
        return self.emit('scal', 'ScalarValue.create', self.new_sscal())

    def coeff(self):
        r = self.rng
        z = r.random()
        if z < 0.45:
            return self.num()
        if z < 0.8:
            return self.new_sscal()
        return self.need('scal', 0.4)

    # -- operators ------------------------------------------------------
    def new_op(self):
        r = self.rng
        z = r.random()
        if z < 0.34:
            args = []
            while r.random() < 0.25:
                args.append(self.new_sscal())
            return self.emit('op', 'OperatorSymbol' + self.dotcreate(),
                             r.choice(OPLABELS),
                             *args, hs=self.hs_arg())
        if z < 0.54:
            f = r.choice(['Create', 'Destroy', 'Destroy', 'Create', 'Jz',
                          'Jplus', 'Jminus'])
            return self.emit('op', f, hs=self.need('shs', 0.2)
                             if f[0] == 'J' else self.lhs_arg())
        if z < 0.68:
            return self.emit('op', 'LocalSigma' + self.dotcreate(),
                             r.choice([0, 1, 1, 2]),
                             r.choice([0, 1]), hs=self.lhs_arg())
        if z < 0.72:
            return self.emit('op', 'LocalSigma',
                             *[self.fock_idx() for _ in range(2)],
                             hs=self.lhs_arg())
        if z < 0.77:
            return self.emit('op', 'LocalProjector', r.choice([0, 1]),
                             hs=self.lhs_arg())
        if z < 0.83:
            return self.emit('op', r.choice(['Displace', 'Squeeze', 'Phase']),
                             self.new_sscal(), hs=self.lhs_arg())
        if z < 0.88:
            return self.emit('op', r.choice(['PauliX', 'PauliY', 'PauliZ']),
                             self.need('bhs'))
        if z < 0.92:
            return ['N', r.choice(['IdentityOperator', 'ZeroOperator', 'II'])]
        return self.emit('op', 'KetBra.create', self.need('ket'),
                         self.need('ket', 0.5))

    def fock_idx(self):
        r = self.rng
        z = r.random()
        i = self.need('idx')
        if z < 0.6:
            return self.emit('lab', 'FockIndex', i)
        if z < 0.85:
            return self.emit('lab', 'FockIndex',
                             self.emit(None, 'op.add', i, r.choice([1, 2])))
        return self.emit('lab', 'FockLabel', i, hs=self.need('bhs'))

    def combine_op(self):
        r = self.rng
        z = r.random()
        a = self.need('op')
        if z < 0.2:
            return self.emit('op', r.choice(['op.add', 'op.sub']), a,
                             self.need('op'))
        if z < 0.42:
            return self.emit('op', 'op.mul', a, self.need('op'))
        if z < 0.56:
            c = self.coeff()
            return self.emit('op', 'op.mul', c, a) if r.random() < 0.7 \
                else self.emit('op', 'op.mul', a, c)
        if z < 0.6:
            return self.emit('op', 'op.truediv', a, self.coeff())
        if z < 0.63:
            return self.emit('op', 'op.pow', a, r.choice([0, 1, 2, 3]))
        if z < 0.68:
            return self.emit('op', r.choice(
                ['.adjoint', 'Adjoint.create', 'adjoint', '.dag']), a)
        if z < 0.72:
            return self.emit('op', 'Commutator.create', a, self.need('op'))
        if z < 0.75:
            return self.emit('op', r.choice(['commutator', 'anti_commutator']),
                             a, self.need('op'))
        if z < 0.79:
            return self.emit('op', 'tr', a, over_space=self.hs_arg())
        if z < 0.82:
            return self.emit('op', r.choice(
                ['PseudoInverse.create', 'NullSpaceProjector.create']), a)
        if z < 0.85:
            return self.emit('op', 'OperatorPlusMinusCC.create', a,
                             sign=r.choice([1, -1]))
        if z < 0.88:
            return self.emit('op', 'OperatorPlus.create', a, self.need('op'),
                             self.need('op'))
        if z < 0.91:
            return self.emit('op', 'OperatorTimes.create', a, self.need('op'),
                             self.need('op'))
        if z < 0.94:
            return self.emit('op', 'ScalarTimesOperator.create', self.coeff(),
                             a)
        if z < 0.97:
            return self.emit('op', 'op.sub', a, self.num())
        return self.emit('op', 'op.mul', self.need('sop'), a)

    # -- states -----------------------------------------------------------
    def new_ket(self):
        r = self.rng
        z = r.random()
        if z < 0.3:
            args = []
            if r.random() < 0.2:
                args.append(self.new_sscal())
            return self.emit('ket', 'KetSymbol' + self.dotcreate(),
                             r.choice(KETLABELS), *args,
                             hs=self.hs_arg())
        if z < 0.6:
            lab = r.choice([0, 1, 1, 2, '0', '1', 'g', 'e']) \
                if r.random() < 0.8 else self.fock_idx()
            return self.emit('ket', 'BasisKet' + self.dotcreate(), lab,
                             hs=self.lhs_arg())
        if z < 0.68:
            return self.emit('ket', 'CoherentStateKet', self.new_sscal(),
                             hs=self.lhs_arg())
        if z < 0.76:
            return self.emit('ket', 'SpinBasisKet',
                             *r.choice([[1, 2], [-1, 2], [1], [0], [-1]]),
                             hs=self.need('shs'))
        if z < 0.8:
            return ['N', r.choice(['ZeroKet', 'TrivialKet'])]
        if z < 0.9 and self.have('ket'):
            return self.emit('ket', 'op.mul', self.need('op'),
                             self.pick('ket'))
        return self.emit('ket', '.basis_state', self.need('bhs'),
                         r.choice([0, 1, 'g']))

    def combine_ket(self):
        r = self.rng
        z = r.random()
        a = self.need('ket')
        if z < 0.25:
            return self.emit('ket', r.choice(['op.add', 'op.sub']), a,
                             self.need('ket'))
        if z < 0.4:
            return self.emit('ket', 'op.mul', self.coeff(), a)
        if z < 0.6:
            return self.emit('ket', 'op.mul', self.need('op'), a)
        if z < 0.75:
            return self.emit('ket', 'op.mul', a, self.need('ket'))
        if z < 0.8:
            return self.emit('ket', 'TensorKet.create', a, self.need('ket'))
        if z < 0.85:
            return self.emit('bra', r.choice(['.adjoint', '@bra', '.dag']), a)
        if z < 0.9:
            return self.emit('op', 'op.mul', a, self.need('bra'))
        if z < 0.95:
            return self.emit('scal', 'op.mul', self.need('bra'), a)
        return self.emit('ket', 'op.truediv', a, self.coeff())

    def new_bra(self):
        return self.emit('bra', r_choice(self.rng, ['.adjoint', 'Bra.create']),
                         self.need('ket'))

    # -- superoperators ---------------------------------------------------
    def new_sop(self):
        r = self.rng
        z = r.random()
        if z < 0.35:
            return self.emit('sop', 'SuperOperatorSymbol',
                             r.choice(['L', 'M', 'A']), hs=self.hs_arg())
        if z < 0.65:
            return self.emit('sop', r.choice(['SPre', 'SPost', 'SPre.create',
                                              'SPost.create']),
                             self.need('op'))
        if z < 0.72:
            return ['N', r.choice(['IdentitySuperOperator',
                                   'ZeroSuperOperator'])]
        if z < 0.82:
            return self.emit('sop', 'lindblad', self.need('op'))
        if z < 0.9:
            return self.emit('sop', r.choice(['commutator',
                                              'anti_commutator']),
                             self.need('op'))
        return self.emit('sop', 'liouvillian', self.need('op'),
                         ['L', self.need('op')])

    def combine_sop(self):
        r = self.rng
        z = r.random()
        a = self.need('sop')
        if z < 0.3:
            return self.emit('sop', r.choice(['op.add', 'op.sub']), a,
                             self.need('sop'))
        if z < 0.55:
            return self.emit('sop', 'op.mul', a, self.need('sop'))
        if z < 0.75:
            return self.emit('sop', 'op.mul', self.coeff(), a)
        if z < 0.85:
            return self.emit('op', 'op.mul', a, self.need('op'))
        if z < 0.92:
            return self.emit('sop', '.adjoint', a)
        return self.emit(None, 'liouvillian_normal_form', a)

    # -- circuits -----------------------------------------------------------
    def new_circ(self):
        r = self.rng
        z = r.random()
        if z < 0.4:
            args = []
            if r.random() < 0.2:
                args.append(self.new_sscal())
            return self.emit('circ', 'CircuitSymbol' + self.dotcreate(),
                             r.choice(CLABELS), *args,
                             cdim=r.choice([1, 2, 2, 3]))
        if z < 0.52:
            k = {}
            if r.random() < 0.6:
                k['label'] = r.choice(['b1', 'b2'])
            if r.random() < 0.6:
                k['mixing_angle'] = self.new_sscal()
            return self.emit(('circ', 'comp'), 'Beamsplitter', **k)
        if z < 0.6:
            k = {}
            if r.random() < 0.5:
                k['label'] = r.choice(['b1', 'p'])
            if r.random() < 0.7:
                k['phase'] = self.new_sscal()
            return self.emit(('circ', 'comp'), 'PhaseCC', **k)
        if z < 0.68:
            k = {}
            if r.random() < 0.5:
                k['label'] = r.choice(['W', 'p'])
            if r.random() < 0.7:
                k['displacement'] = self.new_sscal()
            return self.emit(('circ', 'comp'), 'CoherentDriveCC', **k)
        if z < 0.82:
            n = r.choice([2, 2, 3, 3, 4])
            p = list(range(n))
            r.shuffle(p)
            return self.emit('circ', 'CPermutation.create', ['T'] + p)
        if z < 0.88:
            return self.emit('circ', 'circuit_identity', r.choice([1, 2, 3]))
        if z < 0.9:
            return ['N', r.choice(['CircuitZero', 'CIdentity'])]
        return self.new_slh()

    def new_slh(self):
        r = self.rng
        n = r.choice([1, 1, 2])
        S = self.emit('mat', 'identity_matrix', n) if r.random() < 0.6 else (
            self.emit('mat', 'permutation_matrix',
                      ['T'] + r.choice([list(range(n)),
                                        list(range(n))[::-1]])))
        Ls = ['L'] + [self.need('op') for _ in range(n)]
        return self.emit(('slh', 'circ'), 'SLH', S, Ls, self.need('op'))

    def combine_circ(self):
        r = self.rng
        z = r.random()
        a = self.need('circ')
        if z < 0.26:
            return self.emit('circ', 'op.lshift', a, self.need('circ'))
        if z < 0.48:
            return self.emit('circ', 'op.add', a, self.need('circ'))
        if z < 0.58:
            k = {}
            if r.random() < 0.7:
                k = {'out_port': r.choice([0, 1, 2]),
                     'in_port': r.choice([0, 1, 2])}
            return self.emit('circ', r.choice(['.feedback', 'FB']), a, **k)
        if z < 0.64:
            return self.emit('circ', '.series_inverse', a)
        if z < 0.7:
            return self.emit('circ', '.creduce', a)
        if z < 0.78:
            return self.emit(('slh', 'circ'), '.toSLH', a)
        if z < 0.82:
            return self.emit('circ', 'pad_with_identity', a,
                             r.choice([0, 1]), r.choice([1, 2]))
        if z < 0.86:
            return self.emit('circ', 'map_channels',
                             ['D', [[r.choice([0, 1]), r.choice([0, 1, 2])]]],
                             3)
        if z < 0.89:
            return self.emit('circ', 'extract_channel', r.choice([0, 1]), 3)
        if z < 0.92:
            return self.emit('circ', '.coherent_input', a,
                             *[self.new_sscal()
                               for _ in range(r.choice([1, 2]))])
        if z < 0.96:
            c1, c2 = self.need('circ'), self.need('circ')
            conns = [['T', ['T', 0, r.choice([0, 1])],
                      ['T', 1, r.choice([0, 1])]]]
            return self.emit('circ', 'h.connect', ['L', c1, c2],
                             ['L'] + conns, force_SLH=r.random() < 0.3)
        return self.emit('circ', r.choice(['SeriesProduct.create',
                                           'Concatenation.create']),
                         a, self.need('circ'), self.need('circ'))

    # -- matrices -----------------------------------------------------------
    def entry(self):
        r = self.rng
        if r.random() < 0.5:
            return self.need('op')
        if r.random() < 0.5:
            return self.num()
        return self.new_sscal()

    def new_mat(self):
        r = self.rng
        z = r.random()
        if z < 0.6:
            n, m = r.choice([(1, 1), (2, 2), (2, 2), (2, 1), (1, 2)])
            if r.random() < 0.4:
                return self.emit('mat', 'Matrix', ['A', [
                    [self.entry() for _ in range(m)] for _ in range(n)]])
            return self.emit('mat', 'h.mat', ['L'] + [
                ['L'] + [self.entry() for _ in range(m)] for _ in range(n)])
        if z < 0.7:
            return self.emit('mat', 'identity_matrix', r.choice([1, 2]))
        if z < 0.8:
            return self.emit('mat', 'diagm', ['L', self.entry(),
                                              self.entry()])
        if z < 0.9:
            return self.emit('mat', 'zerosm', ['T', 2, r.choice([1, 2])])
        return self.emit('mat', r.choice(['hstackm', 'vstackm']),
                         ['T', self.need('mat'), self.need('mat')]) \
            if self.have('mat') else self.new_mat()

    def combine_mat(self):
        r = self.rng
        z = r.random()
        a = self.need('mat')
        if z < 0.2:
            return self.emit('mat', r.choice(['op.add', 'op.sub']), a,
                             self.need('mat'))
        if z < 0.4:
            return self.emit('mat', 'op.mul', a, self.need('mat'))
        if z < 0.5:
            return self.emit('mat', 'op.mul', self.coeff(), a)
        if z < 0.6:
            return self.emit('mat', r.choice(['@T', '@H', '.adjoint',
                                              '.expand', '.transpose',
                                              '.conjugate']), a)
        if z < 0.7:
            return self.emit('op', '.trace', a)
        if z < 0.8:
            return self.emit('mat', 'h.mat_elem', a,
                             r.choice(['adj', 'neg', 'two']))
        if z < 0.85:
            return self.emit(None, '@block_structure', a)
        if z < 0.9:
            return self.emit(None, 'h.getitem', a, ['T', 0, 0])
        if z < 0.95:
            return self.emit('mat', 'block_matrix', a, self.need('mat'),
                             self.need('mat'), self.need('mat'))
        return self.emit(None, '@is_zero', a)

    # -- indexed sums -------------------------------------------------------
    def new_idxrange(self):
        r = self.rng
        i = self.need('idx')
        z = r.random()
        if z < 0.4:
            return self.emit('rng', 'IndexOverRange', i, r.choice([0, 1]),
                             r.choice([1, 2, 3]))
        if z < 0.7:
            return self.emit('rng', 'IndexOverFockSpace', i,
                             self.need('lhs'))
        return self.emit('rng', 'IndexOverList', i,
                         [r.choice('TL')] + r.choice([[0, 1], [1, 2, 3], [2], [0, 2]]))

    def new_sum(self):
        """an indexed sum over operators or states"""
        r = self.rng
        i = self.need('idx')
        fi = self.emit('lab', 'FockIndex', i)
        kind = r.choice(['ket', 'ket', 'op', 'op', 'scal'])
        hs = self.need('lhs')
        if kind == 'ket':
            term = self.emit('ket', 'BasisKet', fi, hs=hs)
            cls = 'KetIndexedSum'
        elif kind == 'op':
            j = r.choice([fi, fi, r.choice([0, 1])])
            term = self.emit('op', 'LocalSigma', fi, j, hs=hs)
            cls = 'OperatorIndexedSum'
        else:
            term = self.emit('scal', 'ScalarValue.create',
                             self.emit('sscal', 'h.indexed_base',
                                       r.choice(['a', 'b']), i))
            cls = 'ScalarIndexedSum'
        if kind != 'scal' and r.random() < 0.5:
            c = self.emit('sscal', 'h.indexed_base', r.choice(['a', 'b']), i)
            term = self.emit(kind, 'op.mul', c, term)
        if r.random() < 0.4:
            args = r.choice([[r.choice([1, 2])], [0, 2], [1, 3],
                             [hs], [['L', 0, 1]]])
            s = self.emit(None, 'Sum', i, *args)
            return self.emit((kind, 'sum'), '.__call__', s, term)
        if r.random() < 0.6:
            rg = self.emit('rng', 'IndexOverFockSpace', i, hs)
        else:
            rg = self.emit('rng', 'IndexOverRange', i, 0, r.choice([1, 2, 3]))
        return self.emit((kind, 'sum'), cls + '.create', term, rg)

    def wide(self):
        """something with many parts, the order of which might matter"""
        return self.rng.choice([
            self.wide_sum, self.wide_sum, self.wide_deriv, self.wide_space,
            self.wide_subs, self.wide_label, self.wide_plus,
            self.wide_slh, self.wide_order, self.wide_scalars])()

    def wide_sum(self):
        """a sum over several indices, with Kronecker deltas"""
        r = self.rng
        names = r.sample('ijklmn', r.choice([2, 3, 4, 5]))
        idx = [self.emit('idx', 'h.idxsym', n, **(
            {'primed': 1} if r.random() < .1 else {})) for n in names]
        hs = self.need('lhs')
        kind = r.choice(['ket', 'op', 'scal'])
        a, b = r.choice(idx), r.choice(idx)
        if kind == 'scal':
            term = self.emit('scal', 'ScalarValue.create', self.emit(
                'sscal', 'h.indexed_base', 'b', a))
        elif kind == 'ket':
            term = self.emit('ket', 'BasisKet', self.emit(
                'lab', 'FockIndex', a), hs=hs)
        else:
            term = self.emit('op', 'LocalSigma', self.emit(
                'lab', 'FockIndex', a), self.emit(
                'lab', 'FockIndex', b), hs=hs)
        some = r.sample(idx, r.randrange(1, len(idx) + 1))
        c = self.emit('sscal', 'h.indexed_base', 'a', *some)
        term = self.emit(kind, 'op.mul', c, term)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            d = self.emit('scal', 'KroneckerDelta', r.choice(idx),
                          r.choice(idx + [0, 1]))
            term = self.emit(kind, 'op.mul', d, term)
        rgs = []
        for i in idx:
            z = r.random()
            if z < .3:
                rgs.append(self.emit('rng', 'IndexOverFockSpace', i, hs))
            elif z < .8:
                rgs.append(self.emit('rng', 'IndexOverRange', i, 0,
                                     r.choice([1, 2])))
            else:
                rgs.append(self.emit('rng', 'IndexOverList', i,
                                     ['T', 0, 1]))
        if r.random() < .3:
            # some indices remain free
            rgs = rgs[:r.randrange(1, len(rgs) + 1)]
        cls = {'ket': 'Ket', 'op': 'Operator', 'scal': 'Scalar'}[kind]
        s = self.emit((kind, 'sum'), cls + 'IndexedSum.create', term, *rgs)
        z = r.random()
        if z < .3:
            self.emit('any', '@free_symbols', s)
            self.emit('any', '@bound_symbols', s)
        elif z < .5:
            self.emit('any', '.substitute', s, ['D', [
                [i, r.choice(idx + [1])] for i in r.sample(idx, 2)]])
        elif z < .7:
            self.emit('any', 'op.mul', s, s)
        return s

    def wide_deriv(self):
        """derivatives with respect to several symbols"""
        r = self.rng
        names = r.sample('xyzwuv', r.choice([2, 3, 4]))
        syms = [self.emit('sym', 'Symbol', n) for n in names]
        kind = r.choice(['op', 'ket', 'sop', 'scal'])
        if kind == 'scal':
            e = self.emit('scal', 'BraKet.create', self.emit(
                'ket', 'KetSymbol', 'Psi', *syms, hs=1), self.emit(
                'ket', 'KetSymbol', 'Phi', hs=1))
        else:
            cls = {'op': 'OperatorSymbol', 'ket': 'KetSymbol',
                   'sop': 'SuperOperatorSymbol'}[kind]
            e = self.emit(kind, cls, 'F', *syms, hs=r.choice([1, 'a']))
        if r.random() < .5:
            for s in r.sample(syms, len(syms)):
                e = self.emit(kind, '.diff', e, s)
        else:
            cls = {'op': 'Operator', 'ket': 'State', 'sop': 'SuperOperator',
                   'scal': 'Scalar'}[kind] + 'Derivative.create'
            k = {'derivs': ['D', [[s, r.choice([1, 1, 2])]
                                  for s in r.sample(syms, len(syms))]]}
            if r.random() < .5:
                k['vals'] = ['D', [[s, r.choice([0, 1])]
                                   for s in r.sample(syms, 2)]]
            e = self.emit(kind, cls, e, **k)
        z = r.random()
        if z < .3:
            self.emit('any', '.evaluate_at', e, ['D', [
                [s, r.choice([0, 1, 2])] for s in r.sample(syms, 2)]])
        elif z < .6:
            self.emit('any', '@free_symbols', e)
            self.emit('any', '@bound_symbols', e)
        elif z < .8:
            self.emit('any', '.substitute', e, ['D', [
                [s, r.choice(syms + [2])] for s in r.sample(syms, 2)]])
        return e

    def wide_space(self):
        """Hilbert spaces with many factors"""
        r = self.rng
        hs = [self.emit(('lhs', 'hs'), 'LocalSpace', n, **(
            {'order_index': r.choice([0, 1, 2])} if r.random() < .3 else {}))
            for n in r.sample(['a', 'b', 'c', 'd', 1, 2, 3, 's'],
                              r.choice([3, 4, 5]))]
        p1 = self.emit('hs', 'ProductSpace.create', *r.sample(
            hs, r.randrange(2, len(hs) + 1)))
        p2 = self.emit('hs', 'ProductSpace.create', *r.sample(
            hs, r.randrange(2, len(hs) + 1)))
        f = r.choice(['op.truediv', '.remove', '.intersect', 'op.and_',
                      'op.mul', '.tensor'])
        e = self.emit('hs', f, p1, p2)
        if r.random() < .4:
            ops = [self.emit('op', 'OperatorSymbol', r.choice('ABC'), hs=h)
                   for h in r.sample(hs, len(hs))]
            x = self.emit('op', r.choice(['OperatorTimes.create',
                                          'OperatorPlus.create']), *ops)
            self.emit('any', '@space', x)
            if r.random() < .5:
                self.emit('any', 'tr', x, over_space=r.choice([p1, p2]))
            if r.random() < .3:
                self.emit('any', 'factor_for_trace', self.pick('lhs'), x)
        return e

    def wide_subs(self):
        """replace many things at once"""
        r = self.rng
        syms = [self.emit('sym', 'Symbol', n)
                for n in r.sample('xyzwuv', r.choice([3, 4]))]
        ops = [self.emit('op', 'OperatorSymbol', c, s, hs=1)
               for c, s in zip('ABCD', syms)]
        e = self.emit('op', 'op.mul', r.choice(syms), ops[0])
        for o in r.sample(ops, len(ops)):
            e = self.emit('op', r.choice(['op.add', 'op.mul']), e, o)
        m = [[s, r.choice(syms + [1, 2])] for s in r.sample(syms, 3)]
        if r.random() < .5:
            m = [[o, r.choice(ops)] for o in r.sample(ops, 2)] + m[:1]
        e = self.emit('op', r.choice(['.substitute', 'substitute']), e,
                      ['D', m])
        if r.random() < .4:
            self.emit('any', 'get_coeffs', e, expand=True)
        return e

    def index_formula(self):
        r = self.rng
        i = self.emit('idx', 'h.idxsym', r.choice('ij'))
        j = self.emit('idx', 'h.idxsym', 'j')
        x = self.emit('sym', 'Symbol', r.choice('xn'))
        e = i
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            e = self.emit('sscal', r.choice(['op.add', 'op.mul']), e,
                          r.choice([j, x, 1, 2, ['R', '1/2']]))
        return e, i, j, x

    def wide_order(self):
        """things that differ in a formula only, in canonical order"""
        r = self.rng
        kind = r.choice(['StrLabel', 'FockIndex', 'FockIndex', 'arg', 'scale',
                         'delta', 'sigma'])
        terms = []
        for _ in range(r.choice([2, 2, 3])):
            e = self.index_formula()[0]
            if kind == 'StrLabel':
                if r.random() < .5:
                    e = self.emit('sscal', 'h.indexed_base', 'a', e)
                t = self.emit('ket', 'KetSymbol',
                              self.emit('lab', 'StrLabel', e), hs=1)
            elif kind == 'FockIndex':
                t = self.emit('ket', 'BasisKet',
                              self.emit('lab', 'FockIndex', e), hs=1)
            elif kind == 'sigma':
                t = self.emit('op', 'LocalSigma',
                              self.emit('lab', 'FockIndex', e), 0, hs=1)
            elif kind == 'arg':
                t = self.emit('op', 'OperatorSymbol', 'A', e, hs=1)
            elif kind == 'delta':
                t = self.emit('scal', 'KroneckerDelta', e,
                              self.emit('idx', 'h.idxsym', 'k'))
            else:
                t = self.emit('op', 'op.mul', e, self.emit(
                    'op', 'OperatorSymbol', r.choice('AB'), hs=1))
            terms.append(t)
        res = terms[0]
        for t in terms[1:]:
            res = self.emit('any', 'op.add', res, t)
        return res

    def wide_label(self):
        """symbolic labels, before and after their indices have values"""
        r = self.rng
        e, i, j, x = self.index_formula()
        e = self.emit('sscal', 'h.indexed_base', r.choice(['a', 'S']), e,
                      *([j] if r.random() < .3 else []))
        z = r.random()
        if z < .35:
            e = self.emit('sscal', 'sympy', 'conjugate', e)
        elif z < .5:
            e = self.emit('sscal', 'op.add', e, x)
        lab = self.emit('lab', 'StrLabel', e)
        kind = r.choice(['op', 'ket', 'ket'])
        o = self.emit(kind, 'KetSymbol' if kind == 'ket' else
                      'OperatorSymbol', lab, hs=r.choice([1, 'q']))
        m = ['D', [[i, r.choice([0, 1, 2, j])], [j, r.choice([1, 3])]]]
        z = r.random()
        if z < .25:
            self.emit('any', '.substitute', lab, m)
        if z < .5:
            return self.emit(kind, '.substitute', o, m)
        s = self.emit((kind, 'sum'), ('Ket' if kind == 'ket' else 'Operator')
                      + 'IndexedSum.create', o,
                      self.emit('rng', 'IndexOverRange', i, 0, 2))
        return self.emit('any', r.choice(['.doit', 'h.terms_of']), s)

    def wide_slh(self):
        """a component with several modes"""
        r = self.rng
        names = r.sample(['q', 'r', 's', 0, 1, 'a'], r.choice([2, 2, 3, 4]))
        a = [self.emit('op', 'Destroy', hs=h) for h in names]
        ad = [self.emit('op', '.adjoint', x) for x in a]

        def lin(ops):
            res = None
            for o in r.sample(ops, r.randint(1, len(ops))):
                c = r.choice([1, 2, 3, ['R', '1/2'], None])
                if c is None:
                    c = self.emit('sym', 'Symbol', r.choice('gkw'),
                                  **r.choice([{}, {'real': True}]))
                t = self.emit('op', 'op.mul', c, o)
                res = t if res is None else self.emit('op', 'op.add', res, t)
            return res
        quad = [self.emit('op', 'op.mul', x, y)
                for x, y in zip(ad, r.sample(a, len(a)))] + [
                self.emit('op', 'op.mul', x, y) for x, y in zip(ad, a)]
        n = r.choice([1, 1, 2, 3])
        s = self.emit(('slh', 'circ'), 'SLH',
                      self.emit('mat', 'identity_matrix', n),
                      ['L'] + [lin(a) for _ in range(n)], lin(quad))
        for f in r.sample(['getABCD', 'getABCD', '.symbolic_liouvillian',
                           'h.master', 'h.heisenberg', '@space',
                           '@free_symbols', 'prepare_adiabatic_limit',
                           '.expand'], r.choice([2, 3])):
            if f == 'h.heisenberg':
                self.emit('op', f, s, r.choice(a))
            else:
                self.emit(None, f, s)
        return s

    def wide_scalars(self, callbacks=False):
        """sums and products with scalars that simplifying changes, and
        scalars that it does not change"""
        r = self.rng
        x, y = (self.emit('sym', 'Symbol', n) for n in r.sample('xyzw', 2))
        one = self.emit('sscal', 'op.add', x, 1)
        loose = [self.emit('sscal', 'op.pow', one, 2),
                 self.emit('sscal', 'op.mul', y, one)]
        rigid = [x, y, self.emit('sscal', 'op.mul', x, y), 2]
        hs = r.choice([1, 1, 1, 'q', 'b'])
        kind = r.choice(['op', 'op', 'op', 'ket', 'sop', 'scal'])

        def symbol(n):
            if kind == 'scal':
                return self.emit('scal', 'BraKet.create', *[self.emit(
                    'ket', 'KetSymbol', m, hs=hs) for m in n + 'Z'])
            return self.emit(kind, {
                'op': 'OperatorSymbol', 'ket': 'KetSymbol',
                'sop': 'SuperOperatorSymbol'}[kind], n, hs=hs)
        terms = []
        for n in r.sample('ABCD', r.choice([2, 2, 3])):
            o = symbol(n)
            for _ in range(r.choice([1, 1, 2])):
                c = r.choice(loose if r.random() < 0.5 else rigid)
                terms.append(self.emit(kind, 'op.mul', c, o))
        r.shuffle(terms)
        e = terms[0]
        for t in terms[1:]:
            e = self.emit(kind, 'op.add', e, t)
        es = [e]
        if r.random() < 0.6 and kind != 'ket':
            o = symbol('X')
            f = self.emit(kind, 'op.add', o, self.emit(
                kind, 'op.mul', r.choice(loose), symbol('Y')))
            es.append(self.emit(kind, 'op.mul', f, e))
            es.append(self.emit(kind, 'op.mul', o, e))
            if kind == 'op':
                es.append(self.emit('sop', 'SPre', f))
        if r.random() < 0.3 and kind == 'op':
            es.append(self.emit('mat', 'Matrix', [
                'L', ['L', es[0]], ['L', r.choice(es)]]))
        for _ in range(r.choice([1, 2, 3])):
            e = r.choice(es)
            if callbacks:
                self.emit(kind, 'cb.simplify', e, r.choice([
                    'expand', 'factor', 'simplify']))
            elif r.random() < 0.5:
                self.emit(kind, 'h.simplify_with', e, r.choice([
                    'expand', 'factor', 'simplify']))
            else:
                es.append(self.emit(kind, r.choice([
                    '.simplify_scalar', '.expand', '.doit']), e))
        return es[-1]

    def wide_plus(self):
        """a sum with many similar terms in any order"""
        r = self.rng
        x, y = (self.emit('sym', 'Symbol', n) for n in r.sample('xyzw', 2))
        terms = []
        for _ in range(r.choice([4, 6, 8])):
            t = self.emit(
                'op', 'OperatorSymbol', r.choice('AB'),
                *r.sample([x, y], r.choice([0, 1, 2])),
                hs=r.choice([1, 2, 'a']))
            if r.random() < .6:
                t = self.emit('op', 'op.mul', r.choice([x, y, 2, 3]), t)
            terms.append(t)
        return self.emit('op', 'OperatorPlus.create', *terms)

    def combine_sum(self):
        r = self.rng
        s = self.need('sum')
        z = r.random()
        if z < 0.3:
            k = {}
            if r.random() < 0.3:
                k['max_terms'] = r.choice([1, 2])
            return self.emit('any', '.doit', s, **k)
        if z < 0.5:
            return self.emit('any', 'h.terms_of', s)
        if z < 0.7:
            return self.emit('sum', 'op.mul', s, self.need('sum'))
        if z < 0.8:
            return self.emit('sum', 'op.add', s, self.need('sum'))
        if z < 0.9:
            return self.emit('sum', '.make_disjunct_indices', s,
                             self.need('sum'))
        return self.emit('any', 'h.rng_iter', self.need('rng')) \
            if self.have('rng') else self.emit('any', '@term', s)

    new_rng = new_idxrange

    # -- generic manipulation ----------------------------------------------
    def anyexpr(self):
        r = self.rng
        tys = [t for t in ('op', 'op', 'op', 'ket', 'ket', 'sop', 'circ',
                           'circ', 'scal', 'slh', 'mat', 'bra', 'sum')
               if self.have(t)]
        if not tys:
            return self.need('op'), 'op'
        t = r.choice(tys)
        return self.pick(t), t

    def manip(self):
        r = self.rng
        e, t = self.anyexpr()
        z = r.random()
        if z < 0.12:
            return self.emit(t, '.expand', e)
        if z < 0.17:
            return self.emit(t, 'h.simplify_with', e,
                             r.choice(['expand', 'expand', 'factor']))
        if z < 0.19 and self.p.get('slow', True):
            return self.emit(t, '.simplify_scalar', e)
        if z < 0.29:
            return self.emit(t, '.diff', e, self.need('sym'),
                             **({'n': r.choice([1, 2])}
                                if r.random() < .4 else {}))
        if z < 0.34:
            return self.emit('any', '.series_expand', e, self.need('sym'), 0,
                             r.choice([1, 2]))
        if z < 0.5:
            src, st = (self.need('sym'), 'sym')
            dst = self.new_sscal()
            if r.random() < 0.5:
                src, st = self.anyexpr()
                dst = self.need(st) if st in (
                    'op', 'ket', 'sop', 'circ', 'scal') else src
            if r.random() < 0.5:
                return self.emit(t, 'substitute', e, ['D', [[src, dst]]])
            return self.emit(t, '.substitute', e, ['D', [[src, dst]]])
        if z < 0.55:
            return self.emit(t, '.doit', e)
        if z < 0.59:
            return self.emit(t, '.rebuild', e)
        if z < 0.66:
            return self.emit(t, 'h.apply_rule', e,
                             r.choice(['A2B', 'sym2two', 'comm', 'cannot',
                                       'ket0', 'circ']),
                             recursive=r.random() < .7)
        if z < 0.69:
            return self.emit(t, 'h.apply_rules', e, 'A2B', 'sym2two')
        if z < 0.73:
            return self.emit(t, 'h.rebuild_create', e)
        if z < 0.76:
            return self.emit(t, '.adjoint', e)
        if z < 0.79:
            return self.emit(t, 'h.doit_classes', e,
                             ['N', r.choice(['Commutator', 'IndexedSum',
                                             'OperatorPlusMinusCC'])])
        if z < 0.82:
            return self.emit('op', 'rewrite_with_operator_pm_cc', e)
        if z < 0.85:
            return self.emit('op', 'expand_commutators_leibniz', e)
        if z < 0.88:
            return self.emit('any', 'get_coeffs', e,
                             expand=r.random() < 0.5)
        if z < 0.91:
            return self.emit('any', 'decompose_space', self.need('hs'),
                             self.need('op'))
        if z < 0.93:
            return self.emit('any', 'factor_for_trace', self.need('lhs'),
                             self.need('op'))
        if z < 0.96:
            return self.emit('op', '.expand_in_basis', self.need('op'))
        return self.emit('scal', 'h.conj', self.need('scal'))

    def observe(self):
        r = self.rng
        e, t = self.anyexpr()
        z = r.random()
        if z < 0.12:
            return self.emit(None, '@free_symbols', e)
        if z < 0.16:
            return self.emit(None, '@bound_symbols', e)
        if z < 0.19:
            return self.emit(None, '@all_symbols', e)
        if z < 0.29:
            return self.emit('hs', '@space', e)
        if z < 0.34:
            return self.emit(None, '@is_zero', e)
        if z < 0.44:
            o, _ = self.anyexpr()
            o2, _ = self.anyexpr()
            return self.emit(None, 'h.eq_matrix', e, o, o2)
        if z < 0.5:
            o, _ = self.anyexpr()
            return self.emit(None, r.choice(['h.hash_agree',
                                             'h.as_dict_keys']), e, o)
        if z < 0.58:
            return self.emit(None, 'h.match',
                             r.choice(['sym', 'symargs', 'times2', 'square',
                                       'plus', 'plus_head', 'plus_tail',
                                       'scaled', 'sigma', 'ket', 'anyop',
                                       'cond', 'circ', 'series']), e)
        if z < 0.66:
            return self.emit(None, r.choice(['h.findall', 'h.finditer']),
                             r.choice(['sym', 'sigma', 'ket', 'anyop',
                                       'circ', 'num', 'cond']), e)
        if z < 0.74:
            hs = self.need('hs')
            f = r.choice(['@dimension', '@basis_labels', '@has_basis',
                          '@local_factors', '@basis_states', 'h.len',
                          '.basis_state', '.next_basis_label_or_index'])
            if f in ('.basis_state', '.next_basis_label_or_index'):
                return self.emit(None, f, hs, r.choice([0, 1, 'g', 'e']))
            return self.emit(None, f, hs)
        if z < 0.82:
            hs, h2 = self.need('hs'), self.need('hs', 0.6)
            f = r.choice(['.remove', '.intersect', '.tensor', '.isdisjoint',
                          '.is_tensor_factor_of',
                          '.is_strict_tensor_factor_of', 'h.lessthan',
                          '.is_strict_subfactor_of', 'op.truediv', 'op.and_'])
            return self.emit('hs' if f in ('.remove', '.intersect', '.tensor')
                             else None, f, hs, h2)
        if z < 0.85:
            p = self.emit('pat', 'Pattern', head=['N', r.choice(
                ['OperatorSymbol', 'OperatorPlus', 'OperatorTimes',
                 'KetSymbol', 'CircuitSymbol'])],
                args=['L'] + r.choice([[r.choice(OPLABELS)], [
                    ['W', 'ops__', 0]], [['W', 'a', 0], ['W', 'b', 0]]]),
                kwargs=['D', r.choice([[], [['hs', ['W', 'h', 0]]],
                                       [['hs', self.need('lhs')]]])])
            return self.emit(None, r.choice(['.match', '.findall']), p, e)
        if z < 0.88 and self.have('circ'):
            c = self.pick('circ')
            f = r.choice(['h.components_of', '.get_blocks',
                          '.index_in_block'])
            if f == '.index_in_block':
                return self.emit(None, f, c, r.choice([0, 1]))
            return self.emit(None, f, c)
        if z < 0.93 and self.have('slh'):
            s = self.pick('slh')
            f = r.choice(['getABCD', 'h.master', '.symbolic_liouvillian',
                          'move_drive_to_H', 'prepare_adiabatic_limit',
                          'h.heisenberg', '@Ls', '@space'])
            if f == 'h.heisenberg':
                return self.emit(None, f, s, self.need('op'))
            return self.emit('slh' if f == 'move_drive_to_H' else None, f, s)
        if z < 0.97 and self.p.get('convert', True):
            if r.random() < 0.5:
                return self.emit(None, 'convert_to_qutip', e)
            return self.emit(None, 'convert_to_sympy_matrix', e)
        return self.emit(None, 'h.isinst', e,
                         ['N', r.choice(['Operator', 'State', 'Scalar',
                                         'QuantumTimes'])])

    SETTINGS = {
        'ascii': [{}, {'show_hs_label': False},
                  {'show_hs_label': 'subscript'}, {'sig_as_ketbra': False}],
        'unicode': [{}, {'show_hs_label': False},
                    {'show_hs_label': 'subscript'}, {'sig_as_ketbra': False},
                    {'unicode_op_hats': False},
                    {'unicode_sub_super': False}],
        'latex': [{}, {'show_hs_label': False}, {'tex_use_braket': True},
                  {'tex_frac_for_spin_labels': True},
                  {'tex_identity_sym': 'I'},
                  {'tex_op_macro': '\\Op{{{name}}}'}],
    }

    def printing(self):
        r = self.rng
        e, t = self.anyexpr()
        z = r.random()
        if z < 0.55:
            f = r.choice(['ascii', 'unicode', 'latex'])
            if r.random() < 0.6:
                return self.emit(None, f, e)
            return self.emit(None, 'h.print_settings', f, e,
                             **copy.deepcopy(r.choice(self.SETTINGS[f])))
        if z < 0.65:
            return self.emit(None, 'h.print_cached',
                             r.choice(['ascii', 'unicode', 'latex']), e,
                             self.need('sym', .1) if r.random() < .4
                             else self.anyexpr()[0], 'CACHED')
        if z < 0.78:
            return self.emit(None, 'srepr', e,
                             **({'indented': True} if r.random() < .3 else {}))
        if z < 0.88:
            return self.emit(None, 'h.tree_str', e,
                             **({'unicode': False} if r.random() < .3 else {}))
        if z < 0.92:
            return self.emit(None, 'dotprint', e)
        return self.emit(None, r.choice(['h.str', 'h.repr']), e)

    def template(self, target):
        """continue with a slice of a template"""
        from . import templates
        base = len(self.ops)
        ops, pool = templates.slice_of(self.rng, max(6, target - base),
                                       bool(self.p.get('printing')))
        for op in ops:
            op['a'] = shift(op['a'], lambda r: r + base)
            if op.get('k'):
                op['k'] = shift(op['k'], lambda r: r + base)
        self.ops += ops
        for t, i in pool:
            for ty in (t, 'sscal') if t == 'sym' else (t,):
                self.pool.setdefault(ty, []).append(i + base)
        if self.p.get('printing'):
            for t, i in self.rng.sample(pool, min(2, len(pool))):
                if t in ('hs', 'sym', 'idx', 'eq'):
                    continue
                f = self.rng.choice(['ascii', 'unicode', 'latex', 'srepr',
                                     'h.str', 'tree'])
                if f in self.SETTINGS and self.rng.random() < .5:
                    self.emit(None, 'h.print_settings', f, ['$', i + base],
                              **copy.deepcopy(self.rng.choice(
                                  self.SETTINGS[f])))
                else:
                    self.emit(None, f, ['$', i + base])

    def callback(self):
        """calls that receive a user-supplied function"""
        r = self.rng
        e, t = self.anyexpr()
        z = r.random()
        rules = ['A2B', 'sym2two', 'comm', 'cannot', 'ket0', 'circ']
        if z < 0.22:
            return self.emit(t, 'cb.apply_rule', e, r.choice(rules),
                             recursive=r.random() < .7)
        if z < 0.3:
            return self.emit(t, 'cb.apply_rules', e, r.choice(
                ['list', 'dict']), r.choice(rules), r.choice(rules))
        if z < 0.4:
            return self.emit(t, 'cb.cond_rule', e, r.choice(rules))
        if z < 0.55:
            return self.emit(None, r.choice([
                'cb.match', 'cb.findall', 'cb.finditer']), r.choice([
                    'sym', 'symargs', 'times2', 'square', 'plus',
                    'plus_head', 'plus_tail', 'scaled', 'sigma', 'ket',
                    'anyop', 'cond', 'circ', 'series', 'num']), e)
        if z < 0.72:
            return self.emit(t, 'cb.simplify', e, r.choice([
                'expand', 'expand', 'factor']))
        if z < 0.82:
            return self.emit('mat', 'cb.elements', self.need('mat'),
                             r.choice(['same', 'double', 'expand',
                                       'adjoint']))
        if z < 0.87:
            return self.emit(t, 'cb.apply', e, r.choice([
                'same', 'double', 'adjoint']))
        if z < 0.95:
            return self.emit(None, 'cb.dot', e, r.random() < 0.5)
        return self.emit(None, 'cb.qutip', self.need('op'), self.need('op'))

    def eqs(self):
        r = self.rng
        a, b = self.need('op'), self.need('op')
        steps = [r.choice(['expand', 'adjoint', 'rhs2', 'lhs2', 'settag',
                           'copy']) for _ in range(r.randint(1, 4))]
        return self.emit('eq', 'h.eq_chain', a, b, *steps)


def r_choice(rng, seq):
    return rng.choice(seq)


ALGEBRA = [('new_op', 5), ('combine_op', 8), ('new_ket', 3),
           ('combine_ket', 5), ('new_sop', 2), ('combine_sop', 2),
           ('new_circ', 3), ('combine_circ', 5), ('new_mat', 1),
           ('combine_mat', 1.5), ('new_sum', 2.5), ('combine_sum', 2),
           ('new_scal', 2), ('manip', 8), ('observe', 6), ('new_hs', 1),
           ('eqs', 0.5), ('wide', 0.6), ('printing', 0)]


def gen_script(rng, n=None, profile=None):
    """One script. Swarm style: the operation mix is itself random."""
    profile = dict(profile or {})
    g = G(rng, profile)
    weights = {}
    focus = rng.choice(['op', 'op', 'ket', 'circ', 'sop', 'mat', 'sum',
                        'mix', 'mix', 'mix'])
    for name, w in ALGEBRA:
        if focus != 'mix' and name not in ('manip', 'observe') \
                and focus not in name:
            w *= 0.08
        weights[name] = w * rng.uniform(0.3, 1.7)
    if profile.get('printing'):
        weights['printing'] = profile['printing'] * rng.uniform(0.5, 1.5)
    if profile.get('callback'):
        weights['callback'] = profile['callback'] * rng.uniform(0.5, 1.5)
    if profile.get('wide'):
        weights['wide'] *= profile['wide']
    if 'observe' in profile:
        weights['observe'] *= profile['observe']
    names = list(weights)
    ws = [weights[k] for k in names]
    target = n or rng.choice([5, 8, 8, 12, 12, 16, 22])
    guard = 0
    while rng.random() < profile.get('templates', 0.5) and \
            len(g.ops) < target:
        g.template(target)
    while len(g.ops) < target and guard < 200:
        guard += 1
        getattr(g, rng.choices(names, ws)[0])()
    if profile.get('printing'):
        for _ in range(rng.randint(1, 3)):
            g.printing()
    return g.ops[:target + 40]


def only(rng, *names, n=1):
    """a script made of the given constructs only"""
    g = G(rng, {})
    for _ in range(n):
        getattr(g, rng.choice(names))()
    return g.ops


# --------------------------------------------------------------------------
# near-misses
# --------------------------------------------------------------------------

ALTS = [
    ['A', 'B', 'C', 'H', 'alpha'], ['Psi', 'Phi', 'a'], ['P', 'Q', 'R'],
    ['x', 'y', 't', 'g', 'w'], ['i', 'j', 'k'], ['b1', 'b2', 'p', 'W'],
    ['g', 'e'], ['Destroy', 'Create', 'Phase'], ['b', 'c'], ['q', 's', 'z'],
    ['1/2', '1/3', '-1/2', '3/2'],
]
FALTS = [
    ['Create', 'Destroy'], ['Jz', 'Jplus', 'Jminus'],
    ['Displace', 'Squeeze', 'Phase'], ['op.add', 'op.sub'],
    ['PauliX', 'PauliY', 'PauliZ'], ['SPre', 'SPost'],
    ['SPre.create', 'SPost.create'],
    ['PseudoInverse.create', 'NullSpaceProjector.create'],
    ['commutator', 'anti_commutator'],
    ['OperatorPlus.create', 'OperatorTimes.create'],
    ['SeriesProduct.create', 'Concatenation.create'],
    ['ascii', 'unicode', 'latex'], ['OperatorSymbol', 'OperatorSymbol'],
    ['op.lshift', 'op.add'],
]
KWALTS = {
    'dimension': [2, 3, 4], 'order_index': [1, 2, 5, 0], 'sign': [1, -1],
    'cdim': [1, 2, 3], 'out_port': [0, 1, 2], 'in_port': [0, 1, 2],
    'primed': [0, 1, 2], 'show_hs_label': [True, False, 'subscript'],
    'sig_as_ketbra': [True, False],
}
#: keyword arguments that may be dropped / added
KWADD = {
    'LocalSpace': [('dimension', 2), ('dimension', 3), ('order_index', 1),
                   ('basis', ['T', 'g', 'e']),
                   ('local_identifiers', ['D', [['Destroy', 'b']]])],
    'h.idxsym': [('primed', 1), ('primed', 2), ('integer', True),
                 ('integer', False), ('positive', True)],
    'Symbol': [('real', True), ('positive', True)],
    'Beamsplitter': [('label', 'b2'), ('mixing_angle', ['R', '1/3'])],
    'PhaseCC': [('label', 'p')], 'CoherentDriveCC': [('label', 'W')],
}


def _slots(enc, path):
    """paths of literal leaves inside an encoded argument"""
    if isinstance(enc, list):
        if enc and enc[0] == '$':
            return
        for i, x in enumerate(enc[1:], 1):
            yield from _slots(x, path + [i])
    elif not isinstance(enc, bool) and enc is not None:
        yield path


def _get(o, path):
    for p in path:
        o = o[p]
    return o


def _set(o, path, v):
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = v


def mutate(rng, script, count=1):
    """A near-miss copy of `script`: one literal/keyword/function changed"""
    s = copy.deepcopy(script)
    for _ in range(count):
        for attempt in range(20):
            i = rng.randrange(len(s))
            if attempt == 0 and rng.random() < 0.25:
                opt = [n for n, o in enumerate(s) if o['f'] in OPTIONS]
                if opt and add_option(rng, s[rng.choice(opt)]):
                    break
            op = s[i]
            z = rng.random()
            if z < 0.2:
                fam = [f for f in FALTS if op['f'] in f]
                if not fam:
                    continue
                op['f'] = rng.choice(fam[0])
                break
            if z < 0.35 and add_option(rng, op, 0.7):
                break
            if z < 0.5 and op['f'] in KWADD:
                k, v = rng.choice(KWADD[op['f']])
                kw = op.setdefault('k', {})
                if k in kw and rng.random() < 0.6:
                    del kw[k]
                else:
                    if op['f'] == 'LocalSpace' and k in ('dimension',
                                                         'basis'):
                        kw.pop('dimension', None)
                        kw.pop('basis', None)
                    if op['f'] == 'Symbol':
                        kw.clear()      # positive implies real in sympy
                    kw[k] = copy.deepcopy(v)
                break
            slots = [('a', p) for p in _slots(['T'] + op.get('a', []), [])]
            slots += [('k', [k] + p) for k, v in (op.get('k') or {}).items()
                      for p in _slots(v, [])]
            if not slots:
                continue
            kind, p = rng.choice(slots)
            if kind == 'a':
                root = op['a']
                p = [p[0] - 1] + p[1:]
            else:
                root = op['k']
            cur = _get(root, p)
            if kind == 'k' and len(p) == 1 and p[0] in KWALTS:
                _set(root, p, rng.choice(KWALTS[p[0]]))
                break
            if isinstance(cur, str):
                fam = [a for a in ALTS if cur in a]
                if not fam:
                    continue
                _set(root, p, rng.choice(fam[0]))
                break
            if isinstance(cur, int):
                _set(root, p, rng.choice([0, 1, 2, 3]) if cur >= 0
                     else rng.choice([-1, -2, 1]))
                break
    return s


def refs(enc):
    if isinstance(enc, list):
        if len(enc) == 2 and enc[0] == '$':
            yield enc[1]
        else:
            for x in enc:
                yield from refs(x)
    elif isinstance(enc, dict):
        for x in enc.values():
            yield from refs(x)


def shift(enc, f):
    """map every value reference through f"""
    if isinstance(enc, list):
        if len(enc) == 2 and enc[0] == '$':
            return ['$', f(enc[1])]
        return [shift(x, f) for x in enc]
    if isinstance(enc, dict):
        return {k: shift(v, f) for k, v in enc.items()}
    return enc


def variations(rng, script, count=3):
    """copies of the script in which the last call of a function that takes
    optional arguments has different ones"""
    opt = [n for n, o in enumerate(script) if o['f'] in OPTIONS]
    out = []
    if opt:
        i = rng.choice(opt)
        for _ in range(count):
            s = slice_to(script, i)
            op = s[-1] = copy.deepcopy(s[-1])
            if rng.random() < .3 and op.get('k'):
                op['k'].pop(rng.choice(sorted(op['k'])))
            else:
                add_option(rng, op)
            out.append(s)
    return out


def slice_to(script, i):
    """the operations which operation i needs, and i itself (the last)"""
    keep, todo = set(), [i]
    while todo:
        j = todo.pop()
        if j not in keep:
            keep.add(j)
            todo += list(refs(script[j].get('a', []))) + \
                list(refs(script[j].get('k') or {}))
    order = sorted(keep)
    pos = {o: n for n, o in enumerate(order)}
    res = []
    for o in order:
        op = dict(script[o])
        op['a'] = shift(op.get('a', []), pos.__getitem__)
        if op.get('k'):
            op['k'] = shift(op['k'], pos.__getitem__)
        res.append(op)
    return res


def drop_op(script, i):
    """`script` without operation i (None if something depends on it)"""
    for j in range(i + 1, len(script)):
        if i in set(refs(script[j].get('a', []))) | set(
                refs(script[j].get('k', {}))):
            return None
    out = []
    for j, op in enumerate(script):
        if j == i:
            continue
        op = dict(op)
        op['a'] = shift(op.get('a', []), lambda r: r - 1 if r > i else r)
        if op.get('k'):
            op['k'] = shift(op['k'], lambda r: r - 1 if r > i else r)
        out.append(op)
    return out


#: calls that can be made on (nearly) any value
ON_ANY = [
    ('@free_symbols',), ('@bound_symbols',), ('@all_symbols',), ('.dag',),
    ('.expand',), ('.simplify_scalar',), ('.doit',), ('.rebuild',),
    ('@space',), ('@args',), ('@kwargs',), ('@minimal_kwargs',),
    ('@operands',), ('@is_zero',), ('h.hash',), ('h.order_key',),
    ('h.rebuild_create',), ('h.rebuild_direct',), ('op.neg',),
    ('@coeff',), ('@term',), ('@ket',), ('@bra',), ('@terms',),
    ('@ranges',), ('@label',), ('@identifier',), ('@cdim',),
    ('@block_structure',), ('@basis_labels',), ('@basis_states',),
    ('@dimension',), ('@local_factors',), ('h.terms_of',), ('@shape',),
    ('.transpose',), ('.conjugate',), ('@T',), ('@H',), ('@real',),
    ('@imag',), ('@val',), ('@derivs',), ('@vals',), ('@syms',), ('@n',),
    ('.trace',), ('.adjoint',), ('@is_physical',), ('@minimal_kwargs',),
    ('.series_inverse',), ('.creduce',), ('h.symbol_names',),
    ('convert_to_qutip',), ('convert_to_sympy_matrix',),
]


def shared_patterns(rng, s, vals, n):
    """patterns made of (parts of) the values -> their positions"""
    out = []
    for _ in range(n):
        v = ['$', rng.choice(vals)]
        w = ['$', rng.choice(vals)]
        z = rng.random()
        if z < .3:
            op = {'f': 'Pattern', 'a': [], 'k': {
                'head': ['N', rng.choice(['Expression', 'OperatorTimes',
                                          'OperatorPlus', 'KetPlus'])],
                'args': ['L', v, w]}}
        elif z < .5:
            op = {'f': 'Pattern', 'a': [], 'k': {
                'head': ['N', 'Expression'],
                'args': ['L', rng.choice([v, ['W', 'X', 0]]),
                         ['W', 'Y', 0]]}}
        elif z < .7:
            op = {'f': 'Pattern', 'a': [], 'k': {
                'head': ['N', 'Expression'], 'args': rng.choice([
                    ['L', v, ['W', 'rest__', 0]],
                    ['L', ['W', 'rest__', 0], v],
                    ['L', ['W', 'all___', 0]]])}}
        else:
            op = {'f': 'Pattern', 'a': [], 'k': {
                'head': ['N', rng.choice([
                    'Operator', 'State', 'Expression', 'OperatorSymbol',
                    'ScalarTimesOperator', 'LocalOperator'])]}}
            if rng.random() < .5:
                op['k']['wc_name'] = 'Z'
        s.append(op)
        out.append(len(s) - 1)
    return out


def calls_on(rng, vals, pats, n):
    """calls on existing values, in a random order"""
    out = []
    focus = rng.sample(vals, min(len(vals), rng.choice([1, 2, 4])))
    for _ in range(n):
        v = ['$', rng.choice(focus if rng.random() < .7 else vals)]
        w = ['$', rng.choice(vals)]
        z = rng.random()
        if pats and z < .45:
            p = ['$', rng.choice(pats)]
            out.append({'f': rng.choice(['.match', '.match', '.match',
                                         '.findall', '.finditer']),
                        'a': [p, v]})
        elif z < .8:
            out.append({'f': rng.choice(ON_ANY)[0], 'a': [v]})
        elif z < .95:
            out.append({'f': rng.choice([
                'op.add', 'op.mul', 'op.sub', 'h.eq', 'h.as_dict_keys',
                'h.hash_agree', 'Commutator.create', 'op.lshift']),
                'a': [v, w]})
        else:
            out.append({'f': '.substitute', 'a': [v, ['D', [[w, v]]]]})
    return out


def diverging(rng, n, pats=True):
    """(length of the common beginning, `n` scripts)"""
    from .config import zoo
    pre, vals = zoo(rng, rng.choice([1, 2, 4, 8]))
    vals = sorted(set(vals) | {i for i, o in enumerate(pre)
                               if rng.random() < .3})
    ps = []
    if pats and rng.random() < .6:
        ps = shared_patterns(rng, pre, vals, rng.choice([1, 1, 2, 3]))
    k = rng.choice([1, 2, 4, 6])
    if rng.random() < .3:
        calls = calls_on(rng, vals, ps, k)
        bodies = [pre + calls] * n
    else:
        bodies = [pre + calls_on(rng, vals, ps, k) for _ in range(n)]
    return len(pre), bodies
