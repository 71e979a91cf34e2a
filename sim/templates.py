"""Hand-written scripts, one idiom each, that reach the parts of the library
which random composition rarely meets.  They are written as Python and
translated to the mini-language; the generators mutate, combine and continue
them.  The alphabetic prefix of a variable name is its type.
"""
import ast
import copy

TEXT = r'''
# commutators, expansion and derivatives
sym1 = sym('x'); op1 = OperatorSymbol('A', hs=1); op2 = OperatorSymbol('B', hs=1); op3 = OperatorSymbol('C', hs=1)
op4 = Commutator.create(op1 * op2, op3); op5 = op4.expand(); op6 = op4.doit(); op7 = op4.adjoint(); op8 = expand_commutators_leibniz(op4)
op9 = Commutator.create(op1, op2 * op3); op10 = expand_commutators_leibniz(op9, expand_expr=False); op11 = Commutator.create(sym1 * op1 + op2, op3 + op1); op12 = op11.expand(); op13 = op11.diff(sym1)

sym1 = sym('x'); sym2 = sym('t', real=True); op1 = OperatorSymbol('A', sym1, hs=1); op2 = OperatorSymbol('B', sym1, sym2, hs=1)
op3 = op1.diff(sym1); op4 = (op1 * op2).diff(sym1); op5 = op4.diff(sym2); op6 = Commutator.create(op1, op2).diff(sym1, 2); op7 = (op1 + sym1 ** 2 * op2).diff(sym1)
op8 = op3.adjoint(); op9 = op2.diff(sym2).diff(sym1); any1 = op9.free_symbols; any2 = op9.bound_symbols; op10 = op9.substitute({sym1: 2}); op11 = op2.series_expand(sym1, 0, 2); any3 = unicode(op9); any4 = latex(op9); any5 = ascii(op10); any6 = latex(op10); any7 = unicode(op10)
op12 = op10.evaluate_at({sym2: 1}); any8 = ascii(op12); any9 = op9.vals; any10 = op9.derivs; any11 = op9.n; any12 = op9.syms

sym1 = sym('x'); op1 = OperatorSymbol('A', sym1, hs=1); op2 = tr(op1 * OperatorSymbol('B', hs=2), over_space=LocalSpace(1)); op3 = op2.diff(sym1); op4 = op2.adjoint(); any1 = op2.series_expand(sym1, 0, 2); any2 = latex(op2); any3 = ascii(op2); op5 = tr(op2, over_space=2); op6 = op2.expand()

op1 = OperatorSymbol('A', hs=1); op2 = PseudoInverse.create(op1); op3 = op2.adjoint(); op4 = PseudoInverse.create(2 * op1); op5 = op1.pseudo_inverse(); op6 = op2.pseudo_inverse(); op7 = NullSpaceProjector.create(op1); op8 = op7.adjoint(); op9 = op7 * op1; op10 = op1 * op7; op11 = Create(hs=1).pseudo_inverse(); op12 = Destroy(hs=1).pseudo_inverse(); op13 = Phase(sym('x'), hs=1).pseudo_inverse(); op14 = NullSpaceProjector.create(Create(hs=1)); op15 = op2 * op1

# derivatives that need to be expanded and simplified
sym1 = sym('x'); sym2 = sym('y'); op1 = OperatorSymbol('A', sym1, hs=1); op2 = OperatorSymbol('B', hs=1); op3 = (sym1 * op2 + OperatorSymbol('C', hs=1)) * op1; op4 = op3.diff(sym1); op5 = (sym1 ** 2 * op2 * (op2 + sym1 * op1)).diff(sym1, expand_simplify=False); op6 = (sym1 * sym2 * op2 + (sym1 + sym2) ** 2 * op2).diff(sym1); ket1 = (sym1 * op2 + op1) * KetSymbol('Psi', sym1, hs=1); ket2 = ket1.diff(sym1); scal1 = ket1.dag() * ket1; any1 = scal1.diff(sym1); circ1 = SLH(identity_matrix(1), [sym1 * op2], sym1 * (op2 + op2.dag())); any2 = circ1.symbolic_heisenberg_eom(op2); any3 = circ1.coherent_input(sym2); any4 = move_drive_to_H(any3)

# operator plus/minus cc
sym1 = sym('g', positive=True); op1 = OperatorSymbol('A', hs=1); op2 = OperatorPlusMinusCC.create(op1); op3 = OperatorPlusMinusCC.create(op1, sign=-1); op4 = op2.doit(); op5 = op3.expand(); op6 = op3.adjoint(); op7 = rewrite_with_operator_pm_cc(op1 - op1.dag()); op8 = rewrite_with_operator_pm_cc(sym1 * op1 + sym1 * op1.dag()); op9 = op8.doit(); op10 = (sym1 * op2).diff(sym1); op11 = op3.diff(sym1); op12 = PseudoInverse.create(op2); any1 = latex(op2); any2 = ascii(op3)

# coefficients, expansions
sym1 = sym('x'); sym2 = sym('y'); op1 = OperatorSymbol('A', hs=1); op2 = OperatorSymbol('B', hs=1); op3 = (sym1 * op1 + sym2 * op2) * (op1 - 2 * op2); op4 = op3.expand(); any1 = get_coeffs(op4); any2 = get_coeffs(op3, expand=True, epsilon=0.1); op5 = factor_coeff(sym1 * op1 * op2 + sym1 * op2); op6 = op4.simplify_scalar(); op7 = op4.series_expand(sym1, 0, 1)
any3 = get_coeffs(2 * op1 + 3); op8 = op3.substitute({sym1: sym2}); op9 = op8.expand(); any4 = op9.free_symbols

hs1 = LocalSpace(1, dimension=2); hs2 = LocalSpace(2, dimension=3); op1 = OperatorSymbol('A', hs=hs1); op2 = op1.expand_in_basis(); op3 = op1.expand_in_basis([BasisKet(0, hs=hs1), BasisKet(1, hs=hs1)]); op4 = (op1 * OperatorSymbol('B', hs=hs2)).expand_in_basis(hermitian=True); op5 = op1.expand_in_basis(hermitian=True)

hs1 = LocalSpace(1); hs2 = LocalSpace(2); op1 = OperatorSymbol('A', hs=hs1); op2 = OperatorSymbol('B', hs=hs2); op3 = OperatorSymbol('C', hs=hs1 * hs2); op4 = op1 * op2 * op3; any1 = decompose_space(hs1 * hs2, op4); any2 = factor_for_trace(hs1, op4); any3 = factor_for_trace(hs2, op1 * op2); any4 = op4.factor_for_space(hs1); any5 = tr(op1 * op2, over_space=hs1); any6 = tr(op4, over_space=hs1 * hs2); any7 = factor_for_trace(hs1 * hs2, op1)

# fock and spin
hs1 = LocalSpace('q', local_identifiers={'Destroy': 'b', 'Create': 'b', 'Phase': 'ph'}); op1 = Destroy(hs=hs1); op2 = Create(hs=hs1); op3 = op1 * op2; op4 = op2 * op1; any1 = ascii(op3); any2 = op1.identifier; any3 = op2.identifier; op5 = Phase(sym('x'), hs=hs1); any4 = ascii(op5); op6 = op5 * op1; op7 = Displace(2, hs=hs1) * op1; op8 = Squeeze(1, hs=hs1) * op1; op9 = Displace(2, hs=hs1) * Displace(sym('y'), hs=hs1); op10 = Squeeze(1, hs=hs1) * Squeeze(2, hs=hs1); op11 = op5 * op5; any5 = unicode(op7); op12 = Destroy(hs=3) * Displace(1, hs=3); op13 = Phase(2, hs=hs1).adjoint()

hs1 = SpinSpace('s', spin=R('3/2')); hs2 = SpinSpace('z', spin=1, basis=('g', 'e', 'f')); op1 = Jz(hs=hs1); op2 = Jplus(hs=hs1); op3 = Jminus(hs=hs1); op4 = op2 * op3; op5 = op1 * op2; op6 = op2 * op1; op7 = op1.adjoint(); ket1 = SpinBasisKet(1, 2, hs=hs1); ket2 = op2 * ket1; ket3 = op3 * ket1; ket4 = op1 * ket1; ket5 = SpinBasisKet(0, hs=hs2); ket6 = Jplus(hs=hs2) * ket5; any1 = latex(ket1, tex_frac_for_spin_labels=True); any2 = unicode(ket1); any3 = ascii(ket5); any4 = hs1.multiplicity; any5 = hs1.spin; any6 = hs1.next_basis_label_or_index('+1/2'); any7 = hs1.next_basis_label_or_index(0, 2); any8 = PseudoInverse.create(op1); any9 = PseudoInverse.create(op3); ket7 = Jminus(hs=hs2) * BasisKet(0, hs=hs2)
op8 = LocalSigma(SpinIndex(idx('i'), hs1), SpinIndex(idx('j') + R('1/2'), hs1), hs=hs1); op9 = Jplus(hs=hs1) * op8; op10 = op8.substitute({idx('i'): R('1/2')}); any10 = ascii(op8); any11 = Jpjmcoeff(hs1, R('1/2')); any12 = Jzjmcoeff(hs1, 1, shift=True); any13 = Jmjmcoeff(hs1, R('1/2'), shift=False); ket8 = BasisKet(SpinIndex(idx('i'), hs1), hs=hs1); ket9 = Jz(hs=hs1) * ket8; ket10 = ket8.substitute({idx('i'): R('3/2')}); any14 = Jpjmcoeff(hs1, idx('i'))

hs1 = LocalSpace('q', basis=('g', 'e')); op1 = PauliX(hs1); op2 = PauliY(hs1, states=(0, 1)); op3 = PauliZ(hs1, states=('g', 'e')); op4 = (op1 * op2).expand(); op5 = op4 - 1j * op3; op6 = LocalSigma('g', 'e', hs=hs1); any1 = op6.index_j; any2 = op6.index_k; op7 = op6.raise_jk(1, 0); op8 = op6 * LocalSigma('e', 'g', hs=hs1); any3 = ascii(op6, sig_as_ketbra=False); any4 = latex(op6, sig_as_ketbra=False); op9 = LocalProjector('g', hs=hs1); any5 = ascii(op9); any6 = unicode(op6); op10 = PauliX('z'); op11 = LocalSigma(FockIndex(idx('i')), FockIndex(idx('j')), hs=2).raise_jk(1, 1)

# Hilbert spaces
hs1 = LocalSpace(1, dimension=2); hs2 = LocalSpace(2, basis=('a', 'b', 'c')); hs3 = LocalSpace('q', order_index=1); hs4 = hs1 * hs2 * hs3; hs5 = hs4.remove(hs2); hs6 = hs4.intersect(hs1 * hs2); any1 = hs4.dimension; any2 = (hs1 * hs2).dimension; any3 = (hs1 * hs2).basis_states; any4 = (hs1 * hs2).basis_labels; ket1 = (hs1 * hs2).basis_state(3); ket2 = (hs1 * hs2).basis_state((1, 'b')); any5 = hs1.isdisjoint(hs4); any6 = hs1 <= hs4; any7 = hs4 > hs1; any8 = hs1 < hs1; any9 = hs4.is_strict_tensor_factor_of(FullSpace); any10 = hs1.next_basis_label_or_index(0); any11 = hs2.next_basis_label_or_index('a', 2); any12 = hs4 / hs1; any13 = hs1.remove(hs1); any14 = FullSpace.intersect(hs1); any15 = TrivialSpace.tensor(hs1); any16 = hs1.is_strict_subfactor_of(hs4); any17 = hs4.has_basis; any18 = hs1.remove('q'); any19 = TrivialSpace.remove(hs1); any20 = hs1.isdisjoint(TrivialSpace); any21 = TrivialSpace.basis_state(0); any22 = hs1.intersect(hs2)

hs1 = LocalSpace(1, dimension=3); ket1 = BasisKet(0, hs=hs1); ket2 = ket1.next(); ket3 = ket1.next(2); ket4 = ket1.prev(); ket5 = BasisKet(2, hs=hs1).prev(n=1); any1 = ket1.index; ket6 = BasisKet(1, hs=2).prev(2); ket7 = BasisKet(FockIndex(idx('i')), hs=2).next(); ket8 = ket5.next(); ket9 = hs1.basis_state(2)

# states
sym1 = sym('x'); ket1 = CoherentStateKet(sym1, hs=1); ket2 = ket1.to_fock_representation(max_terms=3); ket3 = ket1.to_fock_representation(index_symbol='m'); ket4 = Destroy(hs=1) * ket1; any1 = ket1.adjoint() * CoherentStateKet(2, hs=1); any2 = ket1.ampl; any3 = ket1.diff(sym1); ket5 = Displace(sym1, hs=1) * BasisKet(0, hs=1); any4 = Phase(2, hs=1) * ket1; any5 = CoherentStateKet(sym1 ** 2, hs=1).diff(sym1)

sym1 = sym('x'); ket1 = KetSymbol('Psi', sym1, hs=1); ket2 = KetSymbol('Phi', hs=1); scal1 = BraKet.create(ket1, ket2); scal2 = ket1.dag() * ket2; scal3 = scal1.adjoint(); scal4 = scal1 * scal1; scal5 = scal1 ** 2; scal6 = scal1 + 2; scal7 = 3 * scal1; scal8 = scal1 / 2; scal9 = scal1.conjugate(); scal10 = sqrt(scal1); scal11 = scal10 * scal10; op1 = KetBra.create(ket1, ket2); op2 = op1.adjoint(); op3 = op1 * op1; ket3 = op1 * ket2; any1 = scal1.diff(sym1); any2 = op1.diff(sym1); any3 = scal1.real; any4 = scal1.imag; op4 = scal1 * OperatorSymbol('A', hs=2); any5 = abs(scal6); op5 = op1 * OperatorSymbol('A', hs=1); any6 = PseudoInverse.create(op1); any7 = scal1.series_expand(sym1, 0, 2); any8 = op1.series_expand(sym1, 0, 1)

ket1 = KetSymbol('Psi', hs=1); ket2 = KetSymbol('Phi', hs=2); bra1 = ket1.dag(); bra2 = Bra(ket2); bra3 = bra1 * bra2; bra4 = bra1 + 2 * bra1; bra5 = bra1 - bra1; bra6 = bra1 / 2; ket3 = bra1.ket; bra7 = ket1.bra; any1 = bra1.bra; any2 = bra4.adjoint(); op1 = ket1 * bra2; any3 = bra1 * ket1; any4 = bra1 * OperatorSymbol('A', hs=1); ket4 = ket1 * ket2; ket5 = TensorKet.create(ket1, ket2); any5 = ket4.label; any6 = ascii(ket5); any7 = latex(bra3); bra8 = 2 * bra1; bra9 = Bra.create(ZeroKet); bra10 = Bra.create(2 * ket1); any8 = OperatorSymbol('A', hs=1) * bra1

sym1 = sym('x'); op1 = OperatorSymbol('A', sym1, hs=1); op2 = OperatorSymbol('B', hs=1); ket1 = KetSymbol('Psi', sym1, hs=1); ket2 = (op1 + op2) * (ket1 + KetSymbol('Phi', hs=1)); ket3 = ket2.expand(); ket4 = (op1 * ket1).diff(sym1); ket5 = (op1 * ket1).series_expand(sym1, 0, 1); ket6 = (op1 * op2) * ket1; ket7 = (2 * op1) * (3 * ket1); ket8 = op1 * ZeroKet; ket9 = ZeroOperator * ket1; ket10 = op1 * (OperatorSymbol('C', hs=2) * KetSymbol('a', hs=LocalSpace(1) * LocalSpace(2))); ket11 = Create(hs=1) * BasisKet(2, hs=1); ket12 = Destroy(hs=1) * BasisKet(0, hs=1); ket13 = LocalSigma(1, 0, hs=1) * BasisKet(0, hs=1); ket14 = Create(hs=1) * (BasisKet(0, hs=1) * KetSymbol('Phi', hs=2)); any1 = ascii(ket2); any2 = latex(ket6); ket15 = op1 * ket4

hs1 = LocalSpace(1); hs2 = LocalSpace(2); ket1 = BasisKet(0, hs=hs1) * BasisKet(1, hs=hs2); ket2 = (Destroy(hs=hs2) * Create(hs=hs1)) * ket1; op1 = ket1 * ket1.dag(); scal1 = ket1.dag() * ket1; op2 = Create(hs=hs1) * LocalSigma(0, 1, hs=hs2); ket3 = op2 * ket1; ket4 = ket1 + BasisKet(1, hs=hs1) * BasisKet(0, hs=hs2); op3 = ket4 * ket4.dag(); op4 = op3.expand(); any1 = ascii(op3); any2 = unicode(ket1); any3 = latex(ket4); ket5 = ket4 / sqrt(2); scal2 = ket5.dag() * ket5; scal3 = scal2.expand()

# superoperators
op1 = OperatorSymbol('A', hs=1); op2 = OperatorSymbol('B', hs=1); sop1 = SPre(op1) * SPost(op2); sop2 = sop1.adjoint(); op3 = sop1 * OperatorSymbol('C', hs=1); op4 = op3.adjoint(); sop3 = SPost(op1) * SPre(op2); sop4 = SPre(op1 + op2).expand(); sop5 = lindblad(op1); sop6 = commutator(op1); sop7 = anti_commutator(op1); sop8 = liouvillian(op1, [op2]); sop9 = liouvillian(op1); any1 = liouvillian_normal_form(sop8); any2 = liouvillian_normal_form(sop8, symbolic=True); op5 = sop8 * op1; op6 = op5.expand(); sop10 = SuperOperatorSymbol('L', sym('x'), hs=1); any3 = sop10.diff(sym('x')); any4 = ascii(sop1); any5 = latex(op3); any6 = latex(sop8); any7 = unicode(sop10 * op1); any8 = commutator(op1, op2); any9 = anti_commutator(op1, op2); sop11 = SPre(2 * op1); sop12 = SPost(ZeroOperator); sop13 = SPre(IdentityOperator); op7 = sop10 * (2 * op1); sop14 = SPre(OperatorSymbol('A', sym('x'), hs=1)).diff(sym('x')); sop15 = sop10.adjoint(); any10 = ascii(sop15); any11 = sop1.substitute({op1: op2}); op8 = SPre(op1) * (SPre(op2) * op1); any12 = liouvillian(op1, hbar=2); any13 = lindblad(IdentityOperator)

# circuits
circ1 = CircuitSymbol('P', cdim=2); circ2 = CircuitSymbol('Q', cdim=1); circ3 = CPermutation.create((2, 0, 1)); circ4 = circ3 << (circ1 + circ2); circ5 = (circ2 + circ1) << CPermutation.create((1, 2, 0)); circ6 = circ4.feedback(out_port=1, in_port=0); circ7 = circ1.feedback(); circ8 = circ4.series_inverse(); circ9 = circ8 << circ4; circ10 = circ6.creduce(); any1 = circ4.get_blocks((1, 2)); any2 = circ4.block_structure; any3 = ascii(circ6); any4 = latex(circ4); any5 = circ3.series_inverse(); circ11 = Feedback.create(circ1 + circ2, out_port=0, in_port=2); circ12 = SeriesInverse.create(circ1 << circ1); circ13 = (circ1 + circ2) << circ3 << (circ2 + circ1); any6 = circ3.get_blocks(); circ14 = circuit_identity(2) << circ1; circ15 = FB(circ3, out_port=0, in_port=1); circ16 = FB(circ4)

circ1 = CPermutation.create((1, 0, 3, 2)); circ2 = CircuitSymbol('P', cdim=2) + CircuitSymbol('Q', cdim=2); circ3 = circ1 << circ2; circ4 = circ2 << circ1; circ5 = circ1 << CPermutation.create((3, 2, 1, 0)) << circ2; any1 = circ1.get_blocks(); any2 = circ1.block_perms; circ6 = circ5.feedback(out_port=3, in_port=0); any3 = circ5.index_in_block(2); circ7 = map_channels({0: 2, 1: 0}, 3); circ8 = extract_channel(1, 3); circ9 = pad_with_identity(CircuitSymbol('R', cdim=1), 1, 2); circ10 = circ2 << (CPermutation.create((2, 3, 0, 1))); circ11 = circ10.feedback(); circ12 = CPermutation.create((2, 0, 1, 3)) << circ2; circ13 = circ2 << CPermutation.create((0, 2, 1, 3)); circ14 = CircuitZero + circ1; any4 = CIdentity << CIdentity; circ15 = CPermutation.create((1, 2, 0)).feedback(out_port=2, in_port=2); circ16 = CPermutation.create((1, 2, 0)).feedback(out_port=0, in_port=1)

sym1 = sym('x', real=True); circ1 = Beamsplitter(mixing_angle=sym1); circ2 = PhaseCC(label='p', phase=sym1); circ3 = CoherentDriveCC(displacement=sym('y')); slh1 = circ1.toSLH(); slh2 = (circ2 + circ3).toSLH(); slh3 = slh2.series_with_slh(slh1); circ4 = (circ1 << (circ2 + circ3)).toSLH(); any1 = circ1.mixing_angle; any2 = circ2.args; any3 = ascii(circ1); any4 = latex(circ1); circ5 = circ1.feedback(out_port=1, in_port=1); circ6 = circ5.toSLH(); circ7 = circ4.coherent_input(1, 2); any5 = circ1.creduce(); circ8 = connect([circ1, circ2], [((0, 'tr'), (1, 'in'))]); circ9 = connect([circ1, circ2, circ3], [((circ3, 0), (circ1, 'in')), ((circ1, 'rf'), (circ2, 0))], force_SLH=True); any6 = connect([circ1, circ2], [((0, 'bogus'), (1, 'in'))]); any7 = connect([circ1, circ2], [((0, 5), (1, 0))]); any8 = connect([circ2, circ2], [((circ2, 0), (1, 0))]); any9 = connect([circ1], [((3, 0), (0, 0))]); any10 = connect([circ1, circ2], [((0, 0), (1, 7))]); any11 = circ1.substitute({sym1: 2}); circ10 = circ2.series_inverse(); any12 = circ2.free_symbols; any13 = srepr(circ2); any14 = Beamsplitter(mixing_angle=1, label='b2'); circ11 = circ1.adjoint()

hs1 = LocalSpace('c'); sym1 = sym('g', positive=True); op1 = Destroy(hs=hs1); slh1 = SLH(identity_matrix(2), [sym1 * op1, sqrt(sym('w', positive=True)) * op1], sym1 * op1.dag() * op1); any1 = slh1.symbolic_liouvillian(); any2 = slh1.symbolic_master_equation(); any3 = slh1.symbolic_heisenberg_eom(op1); any4 = slh1.symbolic_heisenberg_eom(op1, noises=[OperatorSymbol('n', hs=2), OperatorSymbol('m', hs=3)]); any5 = getABCD(slh1); slh2 = slh1.coherent_input(1, sym('y')); slh3 = move_drive_to_H(slh2); slh4 = slh1.feedback(out_port=0, in_port=1); slh5 = slh1.expand(); any6 = slh2.simplify_scalar(); any7 = slh1.symbolic_master_equation(OperatorSymbol('rho', hs=hs1)); any8 = slh1.free_symbols; any9 = ascii(slh1); any10 = slh1.Ls; slh6 = slh1.substitute({sym1: 2}); slh7 = slh1 << slh1; slh8 = slh1 + slh1; any11 = getABCD(slh2, doubled_up=False); any12 = move_drive_to_H(slh2, [1], True); slh9 = slh1.series_inverse()

hs1 = LocalSpace('c', dimension=3); sym1 = sym('k', positive=True); op1 = Destroy(hs=hs1); op2 = LocalSigma(0, 1, hs=LocalSpace('a', dimension=2)); slh1 = SLH(identity_matrix(1), [sym1 * op1], sym1 ** 2 * op1.dag() * op1 + op2 + op2.dag()); any1 = prepare_adiabatic_limit(slh1, sym1); any2 = eval_adiabatic_limit(any1[0], any1[1], any1[2], any1[3], LocalProjector(0, hs=hs1)); any3 = try_adiabatic_elimination(slh1, sym1)

# matrices
sym1 = sym('x'); op1 = OperatorSymbol('A', hs=1); mat1 = Matrix([[op1, 1], [sym1, op1.dag()]]); mat2 = mat1 * mat1; mat3 = mat1 + 1; mat4 = 1 + mat1; mat5 = mat1 - 2 * mat1; mat6 = 3 - mat1; mat7 = mat1 / 2; mat8 = mat1.T; mat9 = mat1.adjoint(); mat10 = mat1.conjugate(); any1 = mat1.trace(); any2 = mat1.shape; any3 = mat1.block_structure; mat11 = diagm([op1, 2]); any4 = mat11.block_structure; mat12 = block_matrix(mat1, mat1, mat1, mat1); any5 = mat11.is_zero; any6 = mat1.free_symbols; mat13 = mat1.substitute({sym1: 2}); any7 = mat1.series_expand(sym1, 0, 1); mat14 = mat12.expand(); any8 = mat1.element_wise(adjoint); any9 = mat1[0, 0]; any10 = mat1[0, :]; mat15 = hstackm((mat1, mat11)); mat16 = vstackm((mat1, mat11)); mat17 = zerosm((2, 2)); any11 = mat17.is_zero; any12 = ascii(mat1); any13 = latex(mat1); any14 = unicode(mat1); any15 = srepr(mat1); mat18 = Matrix([[1, 1j], [2, 3]]); mat19 = mat18.real; mat20 = mat18.imag; mat21 = mat1 * op1; mat22 = op1 * mat1; any16 = hash(mat1) == hash(mat1); mat23 = mat1.simplify_scalar(); any17 = mat11.get_blocks((1, 1)) if 0 else mat11; any18 = mat1.dag(); mat24 = mat1.real; any19 = mat1.imag; any20 = mat1.space; any21 = hstackm((mat1,)); mat25 = Matrix([[1, 2]]).adjoint(); any22 = permutation_matrix((1, 0, 2))

# indexed sums
idx1 = idx('i'); idx2 = idx('j'); hs1 = LocalSpace(1, dimension=2); ket1 = KetIndexedSum.create(BasisKet(FockIndex(idx1), hs=hs1), IndexOverFockSpace(idx1, hs=hs1)); ket2 = ket1.doit(); op1 = OperatorIndexedSum.create(LocalSigma(FockIndex(idx1), FockIndex(idx2), hs=hs1), IndexOverFockSpace(idx1, hs=hs1), IndexOverFockSpace(idx2, hs=hs1)); op2 = op1.doit(); op3 = op1.doit(indices=[idx1]); op4 = op1.doit(indices=['j', 'i']); any1 = ascii(op1); any2 = latex(op1); any3 = unicode(ket1); any4 = op1.terms; scal1 = ket1.dag() * ket1; op5 = ket1 * ket1.dag(); any5 = op5.doit(); ket3 = op1 * ket1; ket4 = op1 * BasisKet(0, hs=hs1); any6 = srepr(op1); any7 = op1.free_symbols; any8 = op1.bound_symbols; op6 = op1 * op1; op7 = op6.doit(); op8 = op1.adjoint(); any9 = len(op1); op9 = tr(op5, over_space=hs1); any10 = op1.doit(indices=['k']); any11 = op1.doit(max_terms=2); any12 = op1.make_disjunct_indices(ket1); op10 = op1 * LocalSigma(0, 1, hs=hs1); op11 = LocalSigma(0, 1, hs=hs1) * op1; op12 = op1 + op1; op13 = 2 * op1; op14 = op1 - op5; op15 = op1 * OperatorSymbol('A', hs=2)

idx1 = idx('i'); idx2 = idx('j'); scal1 = ScalarIndexedSum.create(ScalarValue.create(ib('a', idx1)), IndexOverRange(idx1, 0, 2)); scal2 = scal1.doit(); scal3 = scal1 * scal1; scal4 = scal1 ** 2; scal5 = scal1.conjugate(); scal6 = 2 * scal1; scal7 = scal1 * 3; scal8 = scal1.real; scal9 = scal1.imag; scal10 = scal1 + 1; any1 = ascii(scal3); any2 = latex(scal4); scal11 = ScalarIndexedSum.create(ScalarValue.create(ib('a', idx1)) * KroneckerDelta(idx1, idx2), IndexOverRange(idx1, 0, 2)); scal12 = ScalarIndexedSum.create(KroneckerDelta(idx1, idx2) * ib('a', idx1) * ib('b', idx2), IndexOverRange(idx1, 0, 2), IndexOverRange(idx2, 0, 2)); scal13 = scal12.doit(); any3 = scal1.diff(sym('x')); any4 = scal4.doit(); scal14 = scal1 ** 3; scal15 = scal1 ** 0; any5 = KroneckerDelta(idx1, 2); any6 = KroneckerDelta(1, 1); any7 = KroneckerDelta(idx1, idx1 + 1); scal16 = ScalarIndexedSum.create(KroneckerDelta(idx1, 1) * ib('a', idx1), IndexOverRange(idx1, 0, 2)); scal17 = ScalarIndexedSum.create(3, IndexOverRange(idx1, 0, 2)); any8 = scal1.term; any9 = scal12.substitute({idx2: 1}); scal18 = ScalarIndexedSum.create(KroneckerDelta(idx1, 5) * 2, IndexOverRange(idx1, 0, 2)); scal19 = ScalarIndexedSum.create(ScalarValue.create(sym('x') * ib('a', idx1)), IndexOverRange(idx1, 0, 2))

idx1 = idx('i'); idx2 = idx('j'); idx3 = idx('k'); hs1 = LocalSpace(1, dimension=3); ket1 = Sum(idx1, hs1)(ib('a', idx1) * BasisKet(FockIndex(idx1), hs=hs1)); ket2 = Sum(idx2, hs1)(ib('b', idx2) * BasisKet(FockIndex(idx2), hs=hs1)); scal1 = ket1.dag() * ket2; op1 = ket1 * ket2.dag(); op2 = op1 * op1; ket3 = op1 * ket1; any1 = Sum(idx1, 2); any2 = Sum(idx1, 0, 3)(Sum(idx2, [0, 1])(ib('a', idx1) * ib('b', idx2) * OperatorSymbol('A', hs=1))); any3 = any2.doit(); any4 = any2.doit(['i']); any5 = Sum(idx1, 1, 2, 1)(KroneckerDelta(idx1, idx2) * KroneckerDelta(idx1, idx3) * OperatorSymbol('A', hs=1)); any6 = Sum(idx1, hs1)(Sum(idx2, hs1)(KroneckerDelta(idx1, idx2) * KroneckerDelta(idx2, idx3) * ib('a', idx1) * LocalSigma(FockIndex(idx1), FockIndex(idx2), hs=hs1))); any7 = ascii(any6); any8 = Sum(idx1, hs1)(OperatorSymbol('A', hs=1)); op3 = Destroy(hs=1) * Sum(idx1, LocalSpace(1))(LocalSigma(FockIndex(idx1), FockIndex(idx1 + 1), hs=1)); ket4 = Create(hs=1) * Sum(idx1, LocalSpace(1))(BasisKet(FockIndex(idx1), hs=1)); ket5 = Sum(idx1, LocalSpace(1))(BasisKet(FockIndex(idx1), hs=1)); any9 = ket5.doit(); any10 = ket5.doit(max_terms=2); any11 = Sum(idx1, LocalSpace('q', basis=('g', 'e')))(BasisKet(FockLabel(idx1, LocalSpace('q', basis=('g', 'e'))), hs=LocalSpace('q', basis=('g', 'e')))); any12 = any11.doit(); any13 = Sum(idx1, SpinSpace('s', spin=1))(BasisKet(SpinIndex(idx1, SpinSpace('s', spin=1)), hs=SpinSpace('s', spin=1))); any14 = any13.doit()

idx1 = idx('i'); any1 = IndexOverRange(idx1, 3, 1, step=-1); any2 = any1.iter(); any3 = len(any1); any4 = 2 in any1; any5 = any1.substitute({idx1: idx('j')}); any6 = any1.piecewise_one(KroneckerDelta(idx1, 2)); any7 = IndexOverList(idx1, (1, 3)); any8 = any7.piecewise_one(KroneckerDelta(idx1, 1)); any9 = any7.substitute({idx1: idx('j')}); any10 = 1 in any7; any11 = IndexOverFockSpace(idx1, hs=LocalSpace(1, dimension=2)); any12 = any11.piecewise_one(KroneckerDelta(idx1, 1)); any13 = 1 in any11; any14 = len(any11); any15 = any11.substitute({idx1: idx('k')}); any16 = ascii(any1); any17 = unicode(any7); any18 = latex(any11); any19 = idx1.prime; any20 = idx1.incr_primed(2); any21 = IndexOverFockSpace(idx1, hs=LocalSpace(1)).iter(); any22 = FockIndex(idx1).substitute({idx1: 2}); any23 = StrLabel(idx1).substitute({idx1: sym('x')}); any24 = StrLabel(idx1); any25 = FockIndex(idx1) + 1; any26 = FockIndex(idx1) * 2; any27 = FockIndex(idx1 + 1).fock_index; any28 = IntIndex(idx1).free_symbols; any29 = FockLabel(idx1, hs=LocalSpace('q', basis=('g', 'e'))).substitute({idx1: 1}); any30 = FockLabel(idx1, hs=LocalSpace('q', basis=('g', 'e'))).fock_index; any31 = StrLabel('bogus'); any32 = len(IndexOverFockSpace(idx1, hs=LocalSpace(1))); any33 = h.str(idx1.prime); any34 = KetSymbol(StrLabel(idx1), hs=1); any35 = any34.substitute({idx1: 'n'}); any36 = unicode(any34)

# scalars
sym1 = sym('x'); scal1 = ScalarValue.create(sym1); scal2 = ScalarValue.create(3); scal3 = BraKet.create(KetSymbol('Psi', hs=1), KetSymbol('Phi', hs=1)); scal4 = scal1 + scal3; scal5 = scal2 - scal1; scal6 = scal1 / scal2; scal7 = 2 - scal1; scal8 = 1 / scal1; scal9 = scal2 // 2; scal10 = 7 // scal2; scal11 = scal2 % 2; scal12 = 7 % scal2; scal13 = scal1 ** scal2; scal14 = 2 ** scal2; scal15 = abs(scal2); any1 = float(scal2); any2 = int(scal2); any3 = complex(scal2); any4 = scal2 < 4; any5 = scal2 <= 3; any6 = scal2 > One; any7 = scal2 >= Zero; any8 = scal2 == 3; any9 = scal1.real; any10 = scal1.imag; any11 = scal1.diff(sym1); any12 = scal1.series_expand(sym1, 0, 2); any13 = -scal1; any14 = scal3 * scal1; any15 = scal3 ** -1; any16 = scal3 / scal3; any17 = scal4 ** 2; any18 = any17.expand(); any19 = sqrt(scal2); any20 = sqrt(scal3); any21 = any20 ** 2; any22 = scal4.conjugate(); any23 = scal1.val; any24 = scal1 * One; any25 = scal1 ** Zero; any26 = scal3.free_symbols; any27 = scal4.substitute({sym1: 2}); any28 = 2 - scal3; any29 = 1 / scal3; any30 = scal3 - scal1; any31 = scal3 * 2 * scal3

scal1 = One; scal2 = Zero; any1 = One + 1; any2 = One - 1; any3 = 1 - One; any4 = One * 2; any5 = One / 2; any6 = 2 / One; any7 = One // 2; any8 = One % 2; any9 = 3 % One; any10 = One ** 2; any11 = One < 2; any12 = One <= 1; any13 = One > 0; any14 = One >= Zero; any15 = abs(One); any16 = -One; any17 = float(One); any18 = int(One); any19 = complex(One); any20 = One.real; any21 = One.imag; any22 = Zero + 1; any23 = 1 + Zero; any24 = Zero - 1; any25 = Zero * 2; any26 = 2 * Zero; any27 = Zero / 2; any28 = Zero // 2; any29 = 2 // One; any30 = Zero % 2; any31 = Zero ** 2; any32 = Zero ** 0; any33 = 2 ** Zero; any34 = Zero < 1; any35 = Zero <= 0; any36 = Zero > 1; any37 = Zero >= 1; any38 = float(Zero); any39 = int(Zero); any40 = Zero.real; any41 = Zero.imag; any42 = 1 / Zero; any43 = Zero.diff(sym('x')); any44 = One.diff(sym('x')); any45 = abs(Zero); any46 = -Zero; any47 = One == 1; any48 = Zero == 0; any49 = One + sym('x'); any50 = sym('x') * One; any51 = One - One; any52 = One + One; any53 = One / One; any54 = 1 // Zero; any55 = 1 % Zero

sym1 = sym('x'); scal1 = BraKet.create(KetSymbol('Psi', sym1, hs=1), KetSymbol('Phi', hs=1)); scal2 = BraKet.create(KetSymbol('Psi', hs=2), KetSymbol('a', hs=2)); scal3 = (scal1 + sym1) * (scal2 - 2); scal4 = scal3.expand(); scal5 = scal3.conjugate(); scal6 = scal3 ** 2; scal7 = scal6.expand(); scal8 = scal1 ** R('1/2'); scal9 = scal8 * scal8; scal10 = scal8.conjugate(); any1 = scal8.diff(sym1); any2 = scal3.diff(sym1); any3 = scal8.base; any4 = scal8.exp; any5 = scal8 ** 2; any6 = scal3.series_expand(sym1, 0, 1); any7 = scal8.series_expand(sym1, 0, 1); any8 = ascii(scal3); any9 = latex(scal8); any10 = unicode(scal6); any11 = scal3.substitute({scal1: One}); any12 = scal4.simplify_scalar(); any13 = scal3.free_symbols; any14 = ScalarPlus.create(scal1, scal2, One); any15 = ScalarTimes.create(scal1, scal2, ScalarValue.create(sym1)); any16 = scal1.real + scal1.imag; op1 = scal3 * OperatorSymbol('A', hs=3); op2 = op1.expand(); any17 = op1.adjoint(); any18 = op1 * op1; any19 = scal3 - scal3; any20 = scal1 // 2; any21 = scal1 % 2; any22 = float(scal1); any23 = sqrt(scal3); any24 = sqrt(2); any25 = sqrt(sym1)

# equations
sym1 = sym('x'); op1 = OperatorSymbol('A', hs=1); op2 = OperatorSymbol('B', hs=1); eq1 = Eq(op1 * (op1 + op2), sym1 * op2, tag=1); any1 = eq1.lhs; any2 = eq1.rhs; eq2 = eq1.apply_mtd('expand', cont=True); eq3 = eq2.apply_mtd_to_rhs('adjoint', cont=True, tag=2); eq4 = eq3.apply_mtd_to_lhs('adjoint'); eq5 = eq2.substitute({sym1: 2}, cont=True); eq6 = eq2.apply(adjoint, cont=True, tag='z'); any3 = h.str(eq3); any4 = h.repr(eq5); any5 = ascii(eq3); any6 = latex(eq3); any7 = unicode(eq6); any8 = eq1.free_symbols; any9 = eq1.bound_symbols; any10 = eq1.all_symbols; eq7 = eq1 + eq1; eq8 = eq1 - op1; eq9 = 2 * eq1; eq10 = eq1 * 3; eq11 = eq1 / 2; any11 = eq1 == eq1; any12 = eq1 == op1; any13 = eq1.verify(); eq12 = eq3.copy(); eq13 = eq3.set_tag(7); any14 = eq1.as_dict; eq14 = eq1 + op2; eq15 = eq1 - eq8; eq16 = eq2.apply_to_lhs(adjoint, cont=True); any15 = h.eq_str(eq3, 'unicode'); any16 = eq3.tag; any17 = eq2.apply_mtd('bogus'); any18 = h.eq_str(eq6, 'srepr'); any19 = tree(op1)

# conversion
hs1 = LocalSpace(1, dimension=2); hs2 = LocalSpace(2, dimension=3); op1 = Destroy(hs=hs2); op2 = LocalSigma(0, 1, hs=hs1); any1 = convert_to_qutip(op1 * op2); any2 = convert_to_qutip(2 * op1 + op1.dag()); any3 = convert_to_qutip(op1, full_space=hs1 * hs2); any4 = convert_to_qutip(IdentityOperator, full_space=hs1); any5 = convert_to_qutip(ZeroOperator, full_space=hs1 * hs2); any6 = convert_to_qutip(Phase(1, hs=hs1)); any7 = convert_to_qutip(Displace(2, hs=hs1)); any8 = convert_to_qutip(op1 * op1.dag() * op2); any9 = convert_to_qutip(tr(op1 * op2, over_space=hs1), full_space=hs2); any10 = convert_to_qutip(KetSymbol('Psi', hs=hs1)); any11 = convert_to_qutip(op2, mapping={op2: any1}); any12 = convert_to_qutip(OperatorSymbol('A', hs=hs1)); any13 = convert_to_sympy_matrix(op1); any14 = convert_to_sympy_matrix(op2 * sym('x') + op2.dag()); any15 = convert_to_sympy_matrix(op1 * op2); any16 = convert_to_sympy_matrix(op1, hs1 * hs2); any17 = convert_to_sympy_matrix(Phase(sym('x'), hs=hs1)); any18 = convert_to_sympy_matrix(OperatorSymbol('A', hs=hs1)); any19 = convert_to_qutip(Squeeze(1, hs=hs1)); any20 = convert_to_sympy_matrix(IdentityOperator, hs1); any21 = convert_to_sympy_matrix(ZeroOperator, hs1); any22 = convert_to_qutip(op1, full_space=hs1); any23 = convert_to_qutip(Adjoint(op1)); any24 = convert_to_sympy_matrix(Displace(2, hs=hs1)); any25 = convert_to_qutip(PseudoInverse(op1)); any26 = convert_to_qutip(One * op2)

hs1 = SpinSpace('s', spin=R('1/2')); hs2 = LocalSpace(2, dimension=2); any1 = convert_to_qutip(Jz(hs=hs1)); any2 = convert_to_qutip(Jplus(hs=hs1) * Destroy(hs=hs2)); any3 = convert_to_qutip(Jminus(hs=hs1)); ket1 = BasisKet(0, hs=hs2); ket2 = CoherentStateKet(1, hs=hs2); any4 = convert_to_qutip(ket1); any5 = convert_to_qutip(ket2); any6 = convert_to_qutip(ket1 * SpinBasisKet(1, 2, hs=hs1)); any7 = convert_to_qutip(2 * ket1 + ket2); any8 = convert_to_qutip(ket1.dag()); any9 = convert_to_qutip(ket1.dag() * ket2, full_space=hs2); any10 = convert_to_qutip(KetBra.create(ket1, ket2)); any11 = convert_to_qutip(Destroy(hs=hs2) * ket2); any12 = convert_to_qutip(SPre(Destroy(hs=hs2))); any13 = convert_to_qutip(SPre(Destroy(hs=hs2)) * SPost(Create(hs=hs2))); any14 = convert_to_qutip(lindblad(Destroy(hs=hs2))); any15 = convert_to_qutip(liouvillian(Create(hs=hs2) * Destroy(hs=hs2), [Destroy(hs=hs2)])); any16 = convert_to_qutip(IdentitySuperOperator, full_space=hs2); any17 = convert_to_qutip(ZeroSuperOperator, full_space=hs2); any18 = convert_to_sympy_matrix(Jz(hs=hs1)); any19 = convert_to_sympy_matrix(Jplus(hs=hs1)); any20 = convert_to_qutip(TrivialKet, full_space=hs2); any21 = convert_to_qutip(2 * SPre(Destroy(hs=hs2)) + SPost(Create(hs=hs2))); any22 = convert_to_qutip(KetSymbol('Psi', hs=hs2), mapping={KetSymbol('Psi', hs=hs2): any4}); any23 = convert_to_qutip(ket1 * SpinBasisKet(-1, 2, hs=hs1) + 2 * ket1 * SpinBasisKet(1, 2, hs=hs1)); any24 = convert_to_qutip(ZeroKet, full_space=hs2); any25 = convert_to_qutip(SuperOperatorSymbol('L', hs=hs2)); any26 = convert_to_qutip((ket1 * SpinBasisKet(1, 2, hs=hs1)) * (ket1 * SpinBasisKet(1, 2, hs=hs1)).dag())

hs1 = LocalSpace('c', dimension=3); sym1 = sym('t', real=True); op1 = Destroy(hs=hs1); slh1 = SLH(identity_matrix(1), [2 * op1], op1.dag() * op1); any1 = SLH_to_qutip(slh1); slh2 = SLH(identity_matrix(1), [op1], sy.sin(sym1) * op1.dag() * op1 + op1 + op1.dag()); any2 = SLH_to_qutip(slh2, time_symbol=sym1); any3 = SLH_to_qutip(slh2, time_symbol=sym1, convert_as='str'); any4 = SLH_to_qutip(slh1, full_space=hs1 * LocalSpace('d', dimension=2)); any5 = SLH_to_qutip(slh2); any6 = SLH_to_qutip(SLH(identity_matrix(1), [1], 0)); any7 = SLH_to_qutip(SLH(identity_matrix(1), [sy.exp(sym1) * op1], sym1 * op1), time_symbol=sym1)

# substitution, rules, patterns
sym1 = sym('x'); op1 = OperatorSymbol('A', hs=1); op2 = OperatorSymbol('B', hs=1); op3 = sym1 * op1 * op2 + op2; op4 = op3.substitute({op1: op2, sym1: 2}); op5 = substitute(op3, {sym1: 0}); any1 = substitute(sym1 ** 2, {sym1: 3}); op6 = op3.apply(adjoint); op7 = op3.rebuild(); any2 = op3.free_symbols; any3 = op3.all_symbols; any4 = h.apply_rule(op3, 'A2B'); any5 = h.apply_rules(op3, 'A2B', 'sym2two'); any6 = h.match('scaled', sym1 * op1); any7 = h.match('plus_head', op3); any8 = h.findall('sym', op3); any9 = h.finditer('symargs', op3); any10 = symbols('a b', cls=OperatorSymbol, hs=1); any11 = h.qsymbols('x,y', OperatorSymbol, hs=2); any12 = op3 == op4; any13 = op3 != op4; any14 = h.apply_rule(op1 * op2 * op1, 'comm'); any15 = h.match('num', 3); any16 = substitute(mat_of(op1), {op1: op2}); op8 = op3.expand().simplify_scalar(); any17 = op3.series_expand(sym1, 1, 2); any18 = substitute((op1, op2), {op1: op2}); any19 = Expression.create; op9 = op1 ** 3; op10 = op1 / sym1; op11 = op1 - op1; op12 = op1 + 0; op13 = 3 - op1; op14 = 0 * op1; op15 = op1 * 0; op16 = -op1; op17 = op1 - 2; op18 = op1 / 2; op19 = op1 ** 0; any20 = op1 ** -1; any21 = op1 ** sym1; op20 = op1 + op2 + op1; any22 = op1 / op2; any23 = float(2 * IdentityOperator); any24 = complex(sym1 * IdentityOperator); any25 = sum_of(op1, op2, op1)

hs1 = LocalSpace(1); op1 = OperatorSymbol('A', hs=hs1); any1 = Pattern(head=OperatorSymbol, args=[W('l')], kwargs={'hs': W('h')}); any2 = any1.match(op1); any3 = any1.findall(op1 * op1.dag()); any4 = Pattern(head=OperatorPlus, args=[W('a__'), W('b')]).match(op1 + Create(hs=hs1) + Destroy(hs=hs1)); any5 = wc('a', head=Operator); any6 = any5.match(op1); any7 = pattern_head(W('a'), W('b')); any8 = pattern(OperatorTimes, W('a'), W('a')); any9 = any8.match(Create(hs=hs1) * Create(hs=hs1)); any10 = any8.match(op1 * Create(hs=hs1)); any11 = any1.wc_names; any12 = h.str(any1); any13 = any8.finditer(Create(hs=hs1) ** 2 + op1); any14 = Pattern(head=(OperatorSymbol, Create)); any15 = any14.match(Create(hs=hs1)); any16 = wc('a___', head=int); any17 = pattern(OperatorPlus, W('a___')); any18 = any17.match(op1 + Create(hs=hs1)); any19 = Pattern(head=OperatorPlus, args=[W('a__'), W('b__')]); any20 = h.bool(any10); any21 = any2.success; any22 = h.str(any10.reason); any23 = wc('__bad'); any24 = Pattern(args=[2, W('x')]).match(2 * op1); any25 = any1.match(3); any26 = any1.extended_arg_patterns

# printing of unusual things
sym1 = sym('alpha'); sym2 = sym('x_1'); sym3 = sym('beta_mu', real=True); op1 = OperatorSymbol('sigma_x', hs='q_1'); op2 = OperatorSymbol('Omega', sym1, sym2 ** 2, hs='alpha'); any1 = unicode(op1 * op2); any2 = latex(op1 * op2); any3 = ascii(op2); any4 = unicode(op1, show_hs_label='subscript'); any5 = latex(op1, show_hs_label='subscript'); any6 = latex(sy.conjugate(sym1) * op1); any7 = unicode(sy.conjugate(sym3) ** 2 * op1); any8 = unicode((sym1 + 1) / sy.sqrt(sym2) * op1); any9 = latex(R('-1/3') * sym1 ** sym2 * op1, tex_use_braket=True); any10 = ascii(sy.factorial(sym1) * op1); any11 = unicode(sy.sqrt(2) / 2 * op1); any12 = unicode(sy.exp(1j * sym1) * op1); any13 = ascii(1j * op1); any14 = ascii(0.5 * op1); any15 = unicode(sym1 ** R('-1/2') * op1); any16 = tree(op1 + 2 * op2); any17 = dotprint(op1 + 2 * op2); any18 = ascii(op1.dag() * op2.dag()); any19 = unicode(op1.dag()); any20 = latex(op1.dag()); any21 = latex((op1 + op2).dag()); any22 = ascii([op1, op2]); any23 = ascii((op1,)); any24 = ascii(sym1); any25 = unicode(2); any26 = latex(R('1/2')); any27 = ascii('text'); any28 = latex(sym1 * sym2 / 3); any29 = unicode((sym1 * sym2) ** 2 / 3 - sy.oo); any30 = latex(tr(op1, over_space='q_1')); any31 = unicode(Commutator.create(op1, OperatorSymbol('B', hs='q_1'))); any32 = latex(Commutator.create(op1, OperatorSymbol('B', hs='q_1'))); any33 = ascii(None); any34 = srepr(op2, indented=True); any35 = srepr([op1, 2]); any36 = tex(op1); any37 = unicode(OperatorSymbol('A_i_j', hs=1)); any38 = latex(KetSymbol('Psi_(a,b)', hs=(LocalSpace(1) * LocalSpace(2)))); any39 = unicode(sy.Symbol('kappa_1') * KetSymbol('chi^2', hs=1)); any40 = latex(ZeroOperator + IdentityOperator); any41 = unicode(IdentityOperator); any42 = latex(CircuitSymbol('P_1', sym1, cdim=2) << CPermutation.create((1, 0))); any43 = ascii(op2, show_hs_label=False); any44 = unicode(SuperOperatorSymbol('L', hs=1) * op1); any45 = latex(FullSpace); any46 = ascii(TrivialSpace); any47 = latex(LocalSpace('q_1') * LocalSpace(2)); any48 = ascii(2 * (op1 + op2)); any49 = ascii(-op1 - op2); any50 = latex(op1 * (op1 + op2)); any51 = unicode(sy.I * sym1 * op1)
'''

TYPES = ('hs', 'op', 'ket', 'bra', 'sop', 'circ', 'slh', 'mat', 'scal', 'sym',
         'idx', 'eq', 'any')
BIN = {ast.Add: 'op.add', ast.Sub: 'op.sub', ast.Mult: 'op.mul',
       ast.Div: 'op.truediv', ast.Pow: 'op.pow', ast.LShift: 'op.lshift',
       ast.FloorDiv: 'op.floordiv', ast.Mod: 'op.mod',
       ast.BitAnd: 'op.and_'}
CMP = {ast.Lt: 'op.lt', ast.LtE: 'op.le', ast.Gt: 'op.gt', ast.GtE: 'op.ge',
       ast.Eq: 'h.eq', ast.NotEq: 'h.ne'}
BUILTIN = {'abs', 'float', 'int', 'complex', 'len', 'hash'}


class Translator:
    def __init__(self):
        self.ops = []
        self.names = {}
        self.pool = []

    def emit(self, f, *a, **k):
        op = {'f': f, 'a': list(a)}
        if k:
            op['k'] = k
        self.ops.append(op)
        return ['$', len(self.ops) - 1]

    def expr(self, n):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, float):
                return ['F', n.value]
            if isinstance(n.value, complex):
                return ['C', n.value.real, n.value.imag]
            return n.value
        if isinstance(n, ast.Name):
            if n.id in self.names:
                return ['$', self.names[n.id]]
            return ['N', n.id]
        if isinstance(n, ast.Tuple):
            return ['T'] + [self.expr(x) for x in n.elts]
        if isinstance(n, ast.List):
            return ['L'] + [self.expr(x) for x in n.elts]
        if isinstance(n, ast.Dict):
            return ['D', [[self.expr(k), self.expr(v)]
                          for k, v in zip(n.keys, n.values)]]
        if isinstance(n, ast.IfExp):
            return self.expr(n.orelse)
        if isinstance(n, ast.BinOp):
            a, b = self.expr(n.left), self.expr(n.right)
            return self.emit(BIN[type(n.op)], a, b)
        if isinstance(n, ast.UnaryOp):
            v = self.expr(n.operand)
            if isinstance(v, (int, float)):
                return -v
            return self.emit('op.neg', v)
        if isinstance(n, ast.Compare):
            a, b = self.expr(n.left), self.expr(n.comparators[0])
            if isinstance(n.ops[0], ast.In):
                return self.emit('h.contains', a, b)
            return self.emit(CMP[type(n.ops[0])], a, b)
        if isinstance(n, ast.Subscript):
            return self.emit('h.getitem', self.expr(n.value),
                             self.slice(n.slice))
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == 'sy':
                return self.emit('h.sympy_attr', n.attr)
            v = self.expr(n.value)
            return self.emit('@' + n.attr, v)
        if isinstance(n, ast.Call):
            return self.callx(n)
        raise ValueError(ast.dump(n))

    def slice(self, n):
        if isinstance(n, ast.Tuple):
            return ['T'] + [self.slice(x) for x in n.elts]
        if isinstance(n, ast.Slice):
            return ['S']
        return self.expr(n)

    def callx(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'R':
            return ['R', n.args[0].value]
        if isinstance(f, ast.Name) and f.id == 'W':
            return ['W', n.args[0].value, 0]
        pre = []
        if isinstance(f, ast.Attribute):
            base = f.value
            if isinstance(base, ast.Name) and base.id == 'sy':
                name = 'sympy'
                pre = [f.attr]
            elif isinstance(base, ast.Name) and base.id == 'h':
                name = 'h.' + f.attr
            elif isinstance(base, ast.Name) and base.id not in self.names \
                    and base.id[0].isupper() and f.attr == 'create':
                name = base.id + '.create'
            else:
                name = '.' + f.attr
                pre = [self.expr(base)]
        elif isinstance(f, ast.Name):
            name = {'sym': 'Symbol', 'idx': 'h.idxsym',
                    'ib': 'h.indexed_base', 'sum_of': 'h.sum',
                    'mat_of': 'h.mat_of', 'Matrix': 'h.mat'}.get(f.id, f.id)
            if f.id in BUILTIN:
                name = 'h.' + f.id
            if f.id in self.names:
                name = '.__call__'
                pre = [self.expr(f)]
        else:
            name = '.__call__'
            pre = [self.expr(f)]
        args = pre + [self.expr(a) for a in n.args]
        kw = {k.arg: self.expr(k.value) for k in n.keywords}
        return self.emit(name, *args, **kw)

    def run(self, text):
        for st in ast.parse(text).body:
            (target,) = st.targets
            v = self.expr(st.value)
            if not (isinstance(v, list) and v[0] == '$'):
                v = self.emit('h.value', v)
            self.names[target.id] = v[1]
            ty = target.id.rstrip('0123456789')
            assert ty in TYPES, target.id
            self.pool.append((ty, v[1]))
        return self


def _load():
    out = []
    for block in TEXT.split('\n\n'):
        lines = [l for l in block.split('\n')
                 if l.strip() and not l.startswith('#')]
        if lines:
            t = Translator().run('\n'.join(lines))
            out.append((t.ops, t.pool))
    return out


TEMPLATES = _load()


PRINTS = {'ascii', 'unicode', 'latex', 'srepr', 'tree', 'dotprint', 'tex',
          'h.str'}


def slice_of(rng, n_max=14, printing=True):
    """a random backward slice of a template: some of its results with
    everything they need -> (ops, typed pool)"""
    from .gen import refs, shift
    ops, pool = rng.choice(TEMPLATES)
    keep = set()
    possible = [n for n, (_, i) in enumerate(pool)
                if printing or ops[i]['f'] not in PRINTS]
    wanted = rng.sample(possible, min(len(possible),
                                      rng.choice([1, 2, 3, 5])))
    for w in wanted:
        todo = [pool[w][1]]
        new = set()
        while todo:
            i = todo.pop()
            if i in new or i in keep:
                continue
            new.add(i)
            todo += list(refs(ops[i].get('a', []))) + \
                list(refs(ops[i].get('k', {})))
        if keep and len(keep | new) > n_max:
            continue
        keep |= new
    order = sorted(keep)
    pos = {o: n for n, o in enumerate(order)}
    res = []
    for o in order:
        op = copy.deepcopy(ops[o])
        op['a'] = shift(op['a'], pos.__getitem__)
        if op.get('k'):
            op['k'] = shift(op['k'], pos.__getitem__)
        res.append(op)
    return res, [(t, pos[i]) for t, i in pool if i in pos]
