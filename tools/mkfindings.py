"""known_findings.json: the repairs made (suppress nothing) and the findings that are recorded"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('Q01', 'a0a762d', 'SpinSpace with a custom basis lost that basis when re-created from its kwargs (rebuild, srepr)'),
    ('Q01', '6c5d182', 'products of operators with partially overlapping Hilbert spaces exchanged non-commuting factors'),
    ('Q01', 'fb9c2ac', 'expand_commutators_leibniz gave a wrong result for commutators of products of two factors'),
    ('Q01', 'f23a082', 'the outer product with the zero ket was a KetBra on the full space instead of the zero operator'),
    ('Q10', 'abd5b82', 'comparison of nested order keys was not antisymmetric: endless recursion when ordering commutators'),
    ('Q01', 'e65cf53', 'PseudoInverse distributed over factors acting in the same Hilbert space'),
    ('Q01', '238533c', 'OperatorTrace pulled non-commuting factors out of the partial trace'),
    ('Q02', '7aa6876', 'TensorKet.create() without operands recursed endlessly (factor_for_space, tensor decomposition)'),
    ('Q02', '94e92e3', 'Zero times a bra, and the derivative of a bra, was the zero ket'),
    ('Q02', '1ba5d94', 'expand() of an adjoint whose operand expands to a sum raised an AttributeError'),
    ('Q02', '1792b0a', 'simplify_scalar() on a basis ket in a space without basis raised BasisNotSetError'),
    ('Q02', '71d16cf', 'expand() of an inner product could return the Python int 0'),
    ('Q11', '2ab0a57', 'inside temporary_instance_cache singletons such as ZeroKet were instantiated a second time'),
    ('Q02', '76047d1', 'a product ending in a local operator that does not simplify on a basis ket recursed endlessly'),
    ('Q18', '32cf4f3', 'adjoints were rendered with wrong operand order, lost arguments, or raised a TypeError'),
    ('Q03', '22a2c20', '!= between wrapped NumPy numbers (and between matrices) was always True; doit() then recursed endlessly'),
    ('Q03', '58611e1', 'One - s was One + s, One / s raised or floor-divided, s - x for expressions added'),
    ('Q03', 'b9d76e4', 's % One was Zero for non-integer s'),
    ('Q03', 'eaa0382', 'conversion of a wrapped numpy.complex128 to SymPy dropped the imaginary part'),
    ('Q03', '7670be4', 'simplify_scalar() of an indexed sum dropped the index ranges'),
    ('Q03', '7ebdf13', 'integer powers given as a Scalar raised a TypeError'),
    ('Q03', '0641695', '(x^y)^z was combined to x^(yz) for non-integer z'),
    ('Q15', 'fa69aca', 'renaming the indices of one sum against another could give two equal indices (ValueError) or capture a free index'),
    ('Q04', 'ac62baf', 'the adjoint of a scalar multiple of a super-operator is None'),
    ('Q04', '12e3b3d', 'liouvillian_normal_form failed without collapse operators, for several symbolic ones, for identity terms, and lost a dissipator with coefficient one'),
    ('Q04', '2c93f43', 'products of left/right multiplications and symbols had a cyclic order: no fixed point, doit did not terminate'),
    ('Q05', '024f8bc', 'RecursionError for the feedback of a series product whose repeated inversion does not reach a fixed point, e.g. (A+cid(2))<<P(2,1,3,0)<<(P(1,0)+A) fed back 0->0, or products with SLH factors'),
    ('Q05', '2a3a629', "feedback over a one-channel block of a concatenation raised 'circuit dimension 1 needs to be > 1', e.g. (A(1)+cid(1)).feedback(out_port=0, in_port=0)"),
    ('Q05', '2be8c6b', 'Feedback objects with different ports compared equal and shared a cache entry (e.g. in [B]_{0->0} + [B]_{0->1})'),
    ('Q06', '11562b8', 'the gauge (noise counting) term of symbolic_heisenberg_eom subtracted X from the off-diagonal elements too, for an operator-valued S with two or more channels'),
    ('Q06', '6f144dd', 'getABCD raised AttributeError (numpy scalars in SymPy) for numeric scattering matrices'),
    ('Q06', '852b78d', 'move_drive_to_H(slh, which=[]) transformed all channels'),
    ('Q06', '11bad5b', 'symbolic_heisenberg_eom() without X raised TypeError (LocalSpace | LocalSpace)'),
    ('Q08', '3940205', "permute('ab', (1, 0)) returned the text of a generator object instead of the permuted string"),
    ('Q08', '64f5100', 'permutation_to_disjoint_cycles raised TypeError (string formatting) instead of BadPermutationError for a tuple that is not a permutation'),
    ('Q07', 'e6e5ac9', 'connect accepted two connections leaving the same output port and wired something else'),
    ('Q09', '4e24858', '`LocalSpace.remove` of a space that contains the local space (a product, FullSpace) returned the local space instead of the trivial space; `LocalSpace & FullSpace` raised an error'),
    ('Q09', '54a5427', '`FullSpace.isdisjoint(x)` raised "FullSpace has no local_factors" instead of answering False (and `TrivialSpace.isdisjoint`/`x.isdisjoint(FullSpace)` did answer)'),
    ('Q09', '6f6e233', "`TrivialSpace.basis_state('x')` raised a TypeError from formatting its message instead of the documented KeyError"),
    ('Q09', 'b9a7f18', '`ProductSpace.basis_state(-1)` returned the last state instead of raising the documented IndexError (LocalSpace does raise)'),
    ('Q15', 'fbedafc', 'srepr() of a SpinSpace with order_index=inf (one re-created from its own kwargs, as after substitution) raises OverflowError'),
    ('Q15', '824d1b4', 'Jz/Jplus/Jminus acting on spin basis kets or LocalSigma with symbolic SpinIndex labels used the zero-based index instead of the quantum number m in the coefficient'),
    ('Q15', 'f9a688b', 'products of an indexed sum with an expression that has the index symbol as a free symbol captured that symbol, e.g. |i><i| * Sum_i |i><i|, <Sum|Sum> norms'),
    ('Q15', '67aa05e', 'product of an indexed sum with a scalar multiple of an expression raised AttributeError (_class__) or gave an unsimplified result'),
    ('Q15', '2163621', 'doit(indices=...) of a scalar indexed sum whose terms are plain numbers raised AttributeError'),
    ('Q15', '4369b67', 'ladder/spin/phase operators times LocalSigma with symbolic (SpinIndex, FockLabel, FockIndex) labels raised TypeError'),
    ('Q15', 'b29ae35', 'next()/prev() of basis kets with SpinIndex or FockLabel labels raised TypeError (missing hs)'),
    ('Q18', '136f28a', 'rendering an indexed sum over a range with step > 1 raised TypeError'),
    ('Q15', '46cb9a1', 'sum over a Kronecker delta times an index that collapses to a plain number raised AssertionError'),
    ('Q15', 'e66245f', 'nested sum with a prefactor that contains a free index symbol of the same name as the inner dummy index captured it'),
    ('Q15', '68e82b9', 'substituting an index so that the coefficient of a ladder-operator result vanishes (Jminus * |i> at i=0; doit of Destroy * Sum_i |i>) raised ValueError for the invalid label of the annihilated state'),
    ('Q15', '1e57111', 'doit(indices=...) raised AttributeError if the partially expanded sum simplifies to something that is not a sum'),
    ('Q15', 'c1faf52', 'Sum over (KroneckerDelta + 2) * ket raised AssertionError (plain number as a summand of the coefficient)'),
    ('Q15', '34865c5', 'substituting an index symbol in an expression that contains a sum binding the same symbol (doit of nested sums with shadowed indices) raised TypeError, or captured the replacement'),
    ('Q15', 'ade2a3f', 'IndexOverFockSpace.piecewise_one was 1 at the index equal to the dimension'),
    ('Q13', '831ec72', 'd/dy of D_y A(y) evaluated at y = y*z was zero (and at y = z**2, d/dz was the derivative by z of the operand)'),
    ('Q23', 'af8404f', 'free_symbols of a derivative evaluated at a plain number raised AttributeError'),
    ('Q13', '0e3def0', 'substituting y in D_y A(y) (also inside of a sum or product) replaced y in the operand and gave zero'),
    ('Q13', '683d534', 'the adjoint of the derivative of a ket was the derivative of the bra, which then counted as a ket'),
    ('Q13', '3d2756b', 'differentiating SPre(A), SPost(A) raised TypeError'),
    ('Q13', '2158295', 'differentiating OperatorPlusMinusCC raised AttributeError'),
    ('Q13', 'd436dcc', 'the derivative and the series expansion of PseudoInverse(A) and NullSpaceProjector(A) were those of a linear operation'),
    ('Q14', 'bd2383e', 'the series expansion of OperatorPlusMinusCC(A, sign=-1) lost the sign'),
    ('Q14', 'd004911', 'the series expansion of an indexed sum raised an error as it dropped the index ranges'),
    ('Q14', 'd92882d', 'Matrix.series_expand raised AttributeError for matrices with elements that are plain numbers or SymPy expressions'),
    ('Q14', '4b5c056', 'OperatorTimesKet.series_expand returned the individual products (more than order+1 coefficients) instead of their sums'),
    ('Q14', '54620c1', 'KetBra.series_expand returned the individual products (more than order+1 coefficients) instead of their sums'),
    ('Q18', 'a8f53dc', 'printing a product with a SuperOperatorDerivative raised TypeError (all printers)'),
    ('Q13', '4636a67', 'ScalarPower.diff ignored the dependence of the exponent on the symbol'),
    ('Q14', '9a14fd5', 'SuperOperatorTimesOperator.series_expand ignored the dependence of the super-operator on the parameter'),
    ('Q14', '2fb52db', "ScalarPower.series_expand raised TypeError (can't convert symbols to int) instead of its ValueError for symbolic exponents"),
    ('Q13', '5926f00', 'CoherentStateKet.diff was wrong for amplitudes whose phase depends on the symbol (missing commutator term)'),
    ('Q17', '79203fa', 'srepr rendered e.g. a dimension 2 as ScalarValue(2) (or a ScalarValue as a plain number) when both occurred in an expression'),
    ('Q20', 'f869ca8', 'Matrix.conjugate() of a matrix of operators raised a TypeError instead of NoConjugateMatrix'),
    ('Q20', '1506046', 'a SymPy scalar times a Matrix raised an IndexError'),
    ('Q20', '0f22a7c', 'the blocks of a column matrix were taken from the first block again and again, and not validated'),
    ('Q20', 'a1cc9bd', 'the sum of matrices with different shapes, e.g. (2, 1) and (1, 2), was accepted and broadcast'),
    ('Q20', '2126caf', 'a SymPy scalar times a Matrix of NumPy numbers (e.g. identity_matrix) raised an error'),
    ('Q20', '14d0cb5', 'a SymPy scalar plus a Matrix raised an IndexError'),
    ('Q20', '3b89d5f', 'Zero * Matrix was the scalar Zero (and Matrix * Zero a matrix of zeros)'),
    ('Q19', '145e983', 'Jz, Jplus, Jminus were converted to QuTiP in the opposite order of levels than LocalSigma and kets'),
    ('Q19', '40313f9', 'Phase, Displace, Squeeze, CoherentStateKet raised an AttributeError in convert_to_qutip (and Squeeze would have given a displacement)'),
    ('Q19', '5ed84aa', 'convert_to_qutip of an adjoint raised an AttributeError'),
    ('Q19', '513486f', 'products with a factor acting on several spaces that do not expand were refused; mapped sub-expressions were expanded away'),
    ('Q19', '9ba3237', 'objects supplied by the mapping of convert_to_qutip were not embedded in the full space: e.g. A + M failed with incompatible dimensions'),
    ('Q19', '9572d1a', 'bras, outer products, operators applied to kets, zero kets, and kets in larger spaces could not be converted to QuTiP (errors about missing attributes)'),
    ('Q19', '20247d9', 'super-operators in a larger space raised a TypeError in convert_to_qutip (or gave a tensor product with wrong dimensions)'),
    ('Q19', '20dabe8', 'Jz, Jplus, Jminus were converted to the matrix of the creation/destruction operator'),
    ('Q19', '9ed13f0', 'Displace and Squeeze raised an AttributeError in convert_to_sympy_matrix'),
    ('Q19', 'b0bc44b', 'the conversion of every super-operator raised a TypeError (IdentitySuperOperator is not a class)'),
    ('Q19', '1ec8335', 'PseudoInverse and NullSpaceProjector raised an AttributeError (Qobj.type has no setter)'),
    ('Q19', '14320ab', 'the QuTiP conversion of NullSpaceProjector of a vanishing operator was zero instead of the identity'),
    ('Q02', 'bfb07d6', 'Phase applied to a BasisKet of a space with an explicit basis raised a TypeError (label used instead of the index)'),
    ('Q19', '96dacd9', 'complex(One) is 1j, e.g. the conversion of Displace(One) was the displacement by 1j'),
    ('Q19', '3f5fa97', 'SLH_to_qutip refused a Hamiltonian whose time-dependent terms cancel on expansion'),
    ('Q10', '838e6b3', 'sums depended on the order of their terms: |0>+|0>+|1> was not equal to |0>+|1>+|0>'),
    ('Q10', '896e8dd', 'products of scalars depended on the order of the factors, e.g. five equal scalar products were written as different products of powers'),
    ('Q10', 'e736dcc', 'SuperOperatorTimes.create(SPre(s), SPre(s), T) with s*s = 0 was 0 * T instead of 0'),
    ('Q10', '824e540', 'adjoints of sums were not ordered, (A + B).dag() was not equal to A + B for B = A.dag(); adjoints and derivatives of commutators were not simplified'),
    ('Q10', 'd200de5', 'ScalarPlus.create(One, 2) was not simplified to 3'),
    ('Q10', '06374b5', 'the series product of a permutation, its inverse, and A was cid(n) << A instead of A'),
    ('Q10', '34b5aa6', 'commutator(II) was SPre(1) - SPost(1) instead of 0'),
    ('Q10', 'e70da08', 'products whose factors combine by a rule were left out of order, so that further rules were not applied (J*(-2*A*s) with J, s in one space gave J*A*s)'),
    ('Q12', 'e04559c', 'substituting {y: z, z: y} replaced symbols one after the other'),
    ('Q12', 'abd87fb', 'apply_rule did not reach into the elements of a Matrix, or the S and L of an SLH'),
    ('Q12', 'd65de89', '{A(y): 3 * A(y)} was ignored inside of a derivative with respect to y; substituting y for itself added an evaluation point'),
    ('Q10', '3da66e7', 'the pseudo-inverse of an OperatorPlusMinusCC that is a number was not simplified'),
    ('Q16', 'fce06d5', 'a pattern with argument patterns raised UnboundLocalError for an expression without arguments'),
    ('Q16', '89dadb8', 'findall and finditer did not find anything in a Matrix, or in the S and L of an SLH'),
    ('Q16', '48c613c', "SymPy arguments of a pattern were compared via SymPy's own match method, e.g. I matched 1j"),
    ('Q16', '0a1d004', 'a repeated multi-wildcard could match different lists (which were merged) if the outer pattern had a multi-wildcard'),
    ('Q23', '296fbed', 'the bound symbols of nested sums and derivatives, and of matrix elements, were not among the bound symbols'),
    ('Q23', 'cf35926', 'with repeat=False, dotprint drew the edges of a recurring sub-expression repeatedly'),
    ('Q23', 'f2cce44', 'dotprint with repeat=False merged different sub-expressions with equal hashes, e.g. the scalars -1 and -2'),
    ('Q21', 'e4df5a6', 'Eq.verify did not give zero for equal sides that are sums of kets or super-operators (|a>+|b> - (|a>+|b>) was left unexpanded)'),
    ('Q21', 'd3cd414', 'rendering an equation (or any expression) with a scalar that is an index symbol as LaTeX ended in an infinite recursion'),
    ('Q22', '6a7041c', "Feedback.create and Circuit.feedback accepted ports outside of the circuit's channels, e.g. C(2) with out_port=2"),
    ('Q22', '9318104', 'the series product of a circuit with the identity for a different number of channels was accepted (the identity was dropped)'),
    ('Q22', 'c85fb49', 'SLH accepted a non-square scattering matrix'),
    ('Q22', 'f4e17f1', 'LocalSpace accepted dimension=0, a negative dimension, an empty basis and repeated basis labels'),
    ('Q22', '4045e4d', 'CircuitSymbol accepted a negative cdim'),
    ('Q22', '3cbc94b', 'ScalarValue.create accepted sympy.nan, -sympy.oo, -inf and nan objects other than numpy.nan'),
    ('Q22', '8f7c534', 'diff(n=-1) returned the expression and series_expand(order=-1) one coefficient'),
    ('Q22', 'b8e6586', 'get_blocks of a concatenation accepted block structures for fewer channels and dropped the rest of the circuit'),
    ('Q22', 'e91fd3a', 'KetBra of tensor products on different spaces did not terminate, and BraKet/KetBra.create with a bra could give a product of kets'),
    ('Q22', '1c43d0a', 'applying a product of operators to a tensor product of kets on a smaller space did not terminate instead of raising SpaceTooLargeError'),
]
KNOWN = [
    dict(property='Q21', id='expression-plus-equation',
         what='X + eq gives X (and X * eq gives X or 0) instead of an equation if the right side of eq is 0 (or 1), because an equation compares equal to its right side',
         part='history', case={"w": [{"k": "L", "l": "1", "d": 2}], "kind": "s", "e": ["i", 1, "p"], "start": "expand", "swap": False, "tag": None,
                               "steps": [["rmul", False, None, "X"]]}),
    dict(property='Q03', id='complex-of-one', what='complex(One) is 1j instead of 1 (the test suite pins the wrong value)',
         part='numbers', case={'a': ['one'], 'b': ['zero'], 'real': False}),
    dict(property='Q15', id='scalar-sum-capture',
         what="i * Sum_i(i) gives Sum_i(i*i'), with the primed index outside of the sum's range (the test suite pins the wrong value)",
         part='scalar', case={
             'w': [{'k': 'L', 'l': '1', 'd': 3}], 'typ': 's', 'free': {'i': 2}, 't': [],
             'e': ['smul2', [['ssum', [['i', ['list', [1, 2]]]], ['ix', ['ix', 'i']]], ['ix', ['ix', 'i']]]]}),
]
out = [dict(kind='fixed', property=p, commit=c, what=w, text='fixed: property=%s %s %s' % (p, c, w)) for p, c, w in FIXED]
out += [dict(kind='known', **k) for k in KNOWN]
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(FIXED), 'fixed', len(KNOWN), 'known')
