"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json
C = 'src/qnet/algebra/core/'
R = 'src/qnet/algebra/_rules.py'
P = []


def prop(id, title, statement, over, quant, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mech, where=', '.join(files))])))


prop('Q01', 'Operator simplification preserves the represented linear operator',
     "Any operator expression built with sums, differences, products, integer powers, scalar multiples, adjoints, "
     "commutators, pseudo-inverses, null-space projectors and partial traces of symbols, identities, ladder, spin, "
     "displacement, squeezing, phase, transition and projection operators on one or several degrees of freedom "
     "denotes exactly the linear operator one gets by evaluating the same formula naively with matrices. "
     "Automatic simplification during construction, re-construction, expansion, `doit`, commutator expansion and scalar "
     "simplification never change that denotation, in any order of application.",
     ['inputs', 'programs'],
     "all finite operator programs over all registries of local spaces (any dimension, basis labels, ordering) and all scalar coefficients",
     "tests check a fixed list of rewrite examples symbolically; whether arbitrary combinations of ~100 pattern rules, "
     "canonical orderings and the expand/doit methods compose to a sound rewriting system is a statement about every expression",
     [C+'operator_algebra.py', C+'abstract_quantum_algebra.py', C+'algebraic_properties.py', R,
      'src/qnet/algebra/library/fock_operators.py', 'src/qnet/algebra/library/spin_algebra.py',
      'src/qnet/algebra/library/pauli_matrices.py'],
     "create() pipeline: _simplifications + _rules/_binary_rules; _expand/_adjoint/doit methods of each class")

prop('Q02', 'State algebra (kets, bras, inner and outer products) is sound',
     "Any expression built from kets and bras (basis states, coherent states, symbols, zero and trivial states) with sums, "
     "scalar multiples, tensor products, operator application, adjoints, inner products and outer products denotes exactly "
     "the vector, scalar or operator obtained by naive linear algebra over the same formula. Inner products are "
     "sesquilinear, outer products applied to kets agree with the inner product, bras are the exact adjoints of kets, and "
     "simplification, expansion and `doit` never change what is denoted.",
     ['inputs', 'programs'],
     "all well-typed ket/bra/operator programs over all registries of local spaces with int, string and spin labels",
     "tests sample individual rules with a few labelled states; soundness must hold for arbitrary nested combinations, level indices and overlapping tensor factors",
     [C+'state_algebra.py', C+'abstract_quantum_algebra.py', R],
     "KetPlus/TensorKet/ScalarTimesKet/OperatorTimesKet/Bra/BraKet/KetBra creation rules and expand")

prop('Q03', 'Scalar arithmetic agrees with complex arithmetic',
     "Arithmetic on scalar values, scalar expressions, Python/NumPy numbers and SymPy expressions, mixed in either operand "
     "order with +, -, *, /, ** and unary operations, yields scalars whose numeric value is that of the same formula in complex "
     "arithmetic. Complex conjugation, real and imaginary parts, numeric conversion (complex, float, int), "
     "comparison with numbers, and zero/one normalisation agree with the value.",
     ['inputs', 'programs'],
     "all scalar formulas over numeric literals, positive/real/complex symbols and inner products, in both operand orders",
     "tests exercise tables of selected operand pairs; the coercion and simplification rules must agree with arithmetic for every formula and operand-type combination",
     [C+'scalar_algebra.py', C+'abstract_quantum_algebra.py', R],
     "Scalar.__op__ / __rop__ coercions, ScalarPlus/Times/Power creation rules")

prop('Q04', 'Super-operator algebra acts on operators as composed linear maps',
     "Super-operator expressions built from symbols, identity, left and right multiplication, sums, products, scalar multiples, "
     "adjoints, commutator/anticommutator, dissipator and Liouvillian constructors denote the linear map on operators obtained by "
     "composing the constituent maps, and applying one to an operator expression yields that map's image. Rewriting a "
     "Liouvillian into (H, Ls) normal form, and any simplification or expansion, leaves the map unchanged.",
     ['inputs', 'programs'],
     "all super-operator programs over symbols and operators on one or several spaces, applied to arbitrary operators",
     "tests compare a few hand-picked expressions structurally; the map equality is over every expression and every operand",
     [C+'super_operator_algebra.py', R],
     "SPre/SPost/SuperOperatorTimes(Operator) rules, _expand, liouvillian_normal_form")

prop('Q05', 'Circuit algebra simplification preserves the network SLH model',
     "Any circuit expression built from components, permutations, identities, series products, concatenations, feedback loops and series "
     "inverses denotes the same input-output model (scattering matrix, coupling vector and Hamiltonian by the Gough-James "
     "composition rules) before and after algebraic simplification, reconstruction, expansion of components, and conversion to a "
     "single SLH triple. Channel dimensions, the Hilbert space and the permutation convention (input j leaves at "
     "output sigma(j)) are preserved.",
     ['inputs', 'programs'],
     "all well-typed circuit programs with up to several channels, nested feedbacks and arbitrary permutations",
     "tests check a handful of small identities; permutation block-decomposition, feedback elimination and series re-ordering must be right for every topology and channel count",
     [C+'circuit_algebra.py', R, 'src/qnet/utils/permutations.py', 'src/qnet/algebra/library/circuit_components.py'],
     "SeriesProduct/Concatenation/Feedback/CPermutation create rules, toSLH(), block_structure/get_blocks")

prop('Q06', 'SLH models stay physical and model transformations are exact',
     "Every component of the circuit library and every network composed of them yields an SLH triple with unitary scattering "
     "matrix and Hermitian Hamiltonian equal to its documented model. Derived quantities - coherent-input displacement, moving "
     "drives into the Hamiltonian, symbolic Liouvillian, master equation and Heisenberg equation, and expansion/simplification "
     "of the matrices - agree with the model's textbook numeric definition.",
     ['inputs', 'programs', 'configurations'],
     "all parameter values of the library components, all SLH triples and drive amplitudes, and networks of them",
     "tests evaluate one or two SLH objects symbolically; the formulas must hold for every number of ports, parameter value and observable",
     [C+'circuit_algebra.py', 'src/qnet/algebra/library/circuit_components.py', C+'super_operator_algebra.py'],
     "SLH methods (coherent_input, symbolic_liouvillian, symbolic_heisenberg_eom, move_drive_to_H, series/concat/feedback)")

prop('Q07', 'Wiring a network by port list connects exactly the requested ports',
     "Connecting components by a list of port-to-port connections yields a circuit in which each listed output feeds exactly the "
     "listed input and all remaining ports appear as external channels in component order. Equivalent descriptions "
     "of the same wiring (explicit series, concatenation, permutation and feedback constructions) give the same model.",
     ['inputs', 'programs'],
     "all lists of components and all valid connection lists, including self-loops and string port labels",
     "tests use a few example networks; correctness of port bookkeeping is a statement over every connection list",
     ['src/qnet/algebra/toolbox/circuit_manipulation.py', C+'circuit_algebra.py', 'src/qnet/utils/permutations.py'],
     "connect(): concatenation followed by map_signals/feedback with re-indexing; map_channels, pad_with_identity")

prop('Q08', 'Permutation utilities are mutually consistent',
     "Inversion, composition, concatenation, cycle decomposition and its reverse, block decomposition and its reverse, application to "
     "a sequence, and splitting a permutation by a block structure agree with the definition of a permutation as a function "
     "on indices and are mutually inverse where documented. Invalid index lists are rejected.",
     ['inputs'],
     "all permutations of any length and all block structures",
     "tests and doctests sample a few short permutations",
     ['src/qnet/utils/permutations.py', C+'circuit_algebra.py'],
     "pure functions on index tuples used by circuit permutations")

prop('Q09', 'Hilbert spaces form a consistent lattice of tensor factors',
     "Tensor products, intersections, removals and subset comparisons of Hilbert spaces behave as finite sets of uniquely labelled "
     "degrees of freedom extended by a trivial and a full space: products are associative, commutative and idempotent, comparison "
     "is a partial order consistent with product and intersection. Dimension and basis bookkeeping (dimension, basis labels, basis state lookup, "
     "next/previous state) is consistent with the factors in canonical order.",
     ['inputs', 'programs'],
     "all collections of local spaces (int or string labels, bases, orderings, spin spaces), trivial and full space, under any operation sequence",
     "tests check a small list of operations on three spaces",
     [C+'hilbert_space_algebra.py', 'src/qnet/algebra/library/spin_algebra.py'],
     "ProductSpace.create, intersect, remove, __lt__/__le__, basis_states")

prop('Q10', 'Construction yields a canonical, idempotent normal form',
     "Re-creating an automatically simplified expression from its own parts returns the identical expression. Commutative sums and "
     "products and tensor products give the same expression irrespective of operand order, grouping, or insertion of neutral "
     "elements; products of operators on different degrees of freedom are ordered the same way regardless of the order in which "
     "they were written, while the relative order of operators sharing a degree of freedom is kept.",
     ['inputs', 'programs'],
     "all expressions and all permutations and groupings of operands",
     "tests compare a few hand-written orders; canonicity is over all permutations and nestings",
     [C+'algebraic_properties.py', C+'abstract_algebra.py', 'src/qnet/utils/ordering.py', C+'abstract_quantum_algebra.py'],
     "_simplifications: assoc, orderby, filter_neutral, match_replace(_binary); order keys")

prop('Q11', 'Expression equality, hashing, immutability and caching are transparent',
     "Equal expressions hash equally, unequal arguments or keyword arguments give unequal expressions, and an expression never "
     "changes once it exists. Whatever history of constructions, cache enabling/disabling, temporary rule changes "
     "and failed constructions preceded, the same construction call gives an equal result, and leaving a temporary context - "
     "normally or by exception - restores the previous rules and cache behaviour exactly.",
     ['histories', 'inputs', 'fault_sequences'],
     "all histories of constructions and temporary-context entries/exits, including failing ones",
     "tests run each construction once in a warm process; they cannot explore orders of construction and context nesting",
     [C+'abstract_algebra.py', 'src/qnet/algebra/toolbox/core.py', 'src/qnet/utils/singleton.py'],
     "Expression.create instance cache, temporary_instance_cache/temporary_rules/no_instance_caching/symbols")

prop('Q12', 'Substitution commutes with construction',
     "Substituting sub-expressions or scalar symbols in an expression gives an expression equivalent to constructing it "
     "with the replacement in place from the start, without touching anything not mentioned in the mapping. Replacement is "
     "simultaneous, the identity mapping returns an equal expression, and targeted rule application changes exactly the matching sub-expressions.",
     ['inputs', 'programs'],
     "all expressions (operators, states, scalars, super-operators, circuits, matrices) and all symbol/sub-expression mappings",
     "tests sample single replacements; homomorphism over every expression constructor cannot be sampled by a few examples",
     [C+'abstract_algebra.py', C+'scalar_algebra.py', C+'matrix_algebra.py', C+'circuit_algebra.py', C+'indexed_operations.py'],
     "substitute(), _substitute, apply_rule(s), rebuild")

prop('Q13', 'Symbolic differentiation is the derivative',
     "Differentiating any scalar, state, operator, super-operator or matrix expression with respect to a symbol gives an expression "
     "whose value equals the derivative of the value, for first and higher orders, including product rule order for "
     "non-commuting factors, power rule, and symbolic derivatives that are evaluated after substitution. Expressions "
     "not depending on the symbol differentiate to zero.",
     ['inputs', 'programs'],
     "all differentiable expressions in one or several real symbols and every evaluation point",
     "tests compare a few closed forms; the derivative law is over all expressions and points",
     [C+'abstract_quantum_algebra.py', C+'scalar_algebra.py', C+'operator_algebra.py', C+'state_algebra.py', C+'super_operator_algebra.py', C+'matrix_algebra.py'],
     "diff()/_diff methods and QuantumDerivative")

prop('Q14', 'Series expansion gives the Taylor coefficients',
     "The series expansion of any expression in a symbol about any point to a given order returns one coefficient per order, and each "
     "coefficient equals the corresponding Taylor coefficient of the expression's value. The coefficients do not depend on the "
     "expansion symbol, and summing them against powers reproduces polynomial expressions exactly.",
     ['inputs', 'programs'],
     "all expressions analytic at the point, all expansion points and orders",
     "tests compare a handful of expansions",
     [C+'abstract_quantum_algebra.py', C+'scalar_algebra.py', C+'operator_algebra.py', C+'super_operator_algebra.py', C+'matrix_algebra.py'],
     "series_expand()/_series_expand methods")

prop('Q15', 'Indexed sums equal their term-by-term expansion',
     "A sum over index symbols denotes the sum of its term over the index range; evaluating it explicitly, multiplying it with other "
     "(possibly identical) sums, scalars, operators or states, taking adjoints, inner products and derivatives, re-labelling dummy indices and "
     "collapsing Kronecker deltas all preserve this value. Bound indices are never captured by or confused with free ones.",
     ['inputs', 'programs'],
     "all sums over explicit, list-valued and Hilbert-space ranges with any number of bound indices, nested or multiplied",
     "tests cover selected sums over one or two ranges; index capture and delta collapse must be right for every nesting",
     [C+'indexed_operations.py', 'src/qnet/utils/indices.py', C+'abstract_quantum_algebra.py', R, C+'algebraic_properties.py'],
     "IndexedSum, make_disjunct_indices, doit, Kronecker delta rules")

prop('Q16', 'Pattern matching finds exactly the structural matches',
     "A pattern matches an expression exactly when the expression has the structure described, with every wildcard condition and head/type "
     "restriction satisfied and repeated named wildcards bound to equal values, and the reported bindings reproduce the expression when "
     "put back into the pattern. Searching an expression reports every matching sub-expression and nothing else.",
     ['inputs'],
     "all patterns with single and sequence wildcards, heads, keyword patterns, conditions, and all expressions",
     "tests use fixed pattern/expression pairs; the matcher drives every rewrite rule, so it must be right for every pair",
     ['src/qnet/algebra/pattern_matching/__init__.py'],
     "Pattern.match/_find_match/finditer/findall, MatchDict.update")

prop('Q17', 'The source representation of an expression recreates it',
     "Evaluating the exact source representation of any expression in the library's namespace yields an expression equal to the original, "
     "in the plain and in the indented form, with and without caching of sub-expressions.",
     ['inputs', 'programs'],
     "all expressions of all algebras with int, string and spin labels, symbolic coefficients, indices and custom spaces",
     "tests check a fixed list of expressions",
     ['src/qnet/printing/sreprprinter.py', 'src/qnet/printing/_render_head_repr.py', 'src/qnet/printing/__init__.py'],
     "srepr(), IndentedSReprPrinter, QnetSReprPrinter / minimal_kwargs")

prop('Q18', 'Text rendering is total and faithful',
     "Every expression can be rendered as ASCII, Unicode, LaTeX and tree text without error under every combination of printing settings. "
     "The ASCII rendering, read with ordinary operator precedence, denotes the same mathematical object as the expression (parenthesisation, "
     "signs, adjoint order, labels), and the Unicode and LaTeX renderings have the same structure. Temporary printing configuration is fully "
     "restored on leaving its context, and rendering does not depend on what was rendered before.",
     ['inputs', 'configurations', 'histories'],
     "all expressions, all printer settings and all histories of configuration contexts",
     "tests compare fixed strings for a few dozen expressions under default settings",
     ['src/qnet/printing/asciiprinter.py', 'src/qnet/printing/unicodeprinter.py', 'src/qnet/printing/latexprinter.py', 'src/qnet/printing/base.py',
      'src/qnet/printing/__init__.py', 'src/qnet/printing/_precedence.py', 'src/qnet/printing/treeprinting.py'],
     "QnetAsciiPrinter and subclasses, configure_printing, parenthesize/precedence")

prop('Q19', 'Numeric conversion is a faithful representation',
     "Converting an operator, state, super-operator or SLH expression to a numeric or SymPy-matrix object gives, in the canonical tensor-factor order, "
     "exactly the matrix the expression denotes, in its own or any larger Hilbert space and with symbols replaced by mapped objects. "
     "The conversion is a homomorphism: it commutes with sums, products, scalar multiples and adjoints.",
     ['inputs', 'programs', 'configurations'],
     "all finite-dimensional expressions, all enclosing spaces and factor orderings, all symbol mappings",
     "tests convert a few operators on one or two small spaces",
     ['src/qnet/convert/to_qutip.py', 'src/qnet/convert/to_sympy_matrix.py'],
     "convert_to_qutip/_convert_*, SLH_to_qutip, convert_to_sympy_matrix")

prop('Q20', 'Matrices of operators follow matrix algebra',
     "Arithmetic, transposition, element-wise conjugation, adjoint, stacking, block extraction and block assembly, real/imaginary decomposition, indexing, "
     "expansion and element-wise maps on matrices of operators agree with the same operations on arrays of the denoted "
     "operators. Shapes are validated, and equal matrices hash equally.",
     ['inputs', 'programs'],
     "all rectangular matrices of scalars, SymPy expressions and operators and all block partitions",
     "tests use a few 2x2 examples (several of them do not even run with current NumPy)",
     [C+'matrix_algebra.py'],
     "Matrix methods, hstackm/vstackm/block_matrix/diagm/permutation_matrix/identity_matrix")

prop('Q21', 'Equation tool keeps both sides equivalent',
     "Every manipulation of an equation object applies the same operation to both sides (or just the requested side), so that an equation that "
     "holds keeps holding; history, tags, copies and chained display never alter the equation itself. Verification reports zero exactly "
     "for equal sides.",
     ['histories', 'inputs'],
     "all sequences of equation manipulations on all expressions",
     "tests run one or two scripted derivations",
     ['src/qnet/algebra/toolbox/equation.py'],
     "Eq.apply*/add/mul/... with cont and history")

prop('Q22', 'Incompatible inputs are rejected, compatible ones accepted',
     "Constructions that have no meaning - ket sums over different Hilbert spaces, tensor products over overlapping ones, operators applied to kets "
     "of a smaller space, bra/ket/operator type mixing, labels outside a space, mismatched channel numbers or matrix shapes, non-permutations, "
     "feedback or connections between ports that do not exist, spaces without a positive dimension or with repeated basis labels, non-finite or "
     "ill-typed arguments - raise a clear error rather than yielding an expression, and every meaningful construction is accepted.",
     ['inputs'],
     "all ill-typed and all well-typed constructor calls",
     "tests cover individual error branches; both directions must hold over the whole input space",
     [C+'exceptions.py', C+'state_algebra.py', C+'hilbert_space_algebra.py', C+'circuit_algebra.py', C+'operator_algebra.py', 'src/qnet/utils/_attrs.py', 'src/qnet/utils/permutations.py', 'src/qnet/utils/indices.py'],
     "validation in __init__/create and *_tester functions")

prop('Q23', 'Structure queries report what the expression contains',
     "The free, bound and total symbol sets of an expression are exactly those occurring in it (free ones being those its value can depend on), its "
     "Hilbert space is the product of the spaces its parts act on, and its tree and graph views have exactly one node per sub-expression "
     "occurrence with parent-child edges mirroring its operands.",
     ['inputs', 'programs'],
     "all expressions, including indexed sums, derivatives, matrices and circuits",
     "tests check a few expressions",
     [C+'abstract_algebra.py', C+'abstract_quantum_algebra.py', C+'indexed_operations.py', 'src/qnet/printing/dot.py', 'src/qnet/printing/treeprinting.py', C+'scalar_algebra.py'],
     "free_symbols/bound_symbols/all_symbols, space properties, dotprint/tree")

if __name__ == '__main__':
    import os
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
