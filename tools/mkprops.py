"""writes properties.jsonl (kept as code so that the statements are easy to review)"""
import json, os
A = 'src/qnet/algebra/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


p('C01', 'Channel permutations obey the algebra of permutations',
  'Inverting, composing and concatenating permutations, and decomposing a permutation into a block permutation with permutations inside '
  'the blocks, give exactly the mathematical permutations these operations denote, for every valid permutation and block structure. '
  'A list that is not a permutation is recognised as such, and a permutation compatible with a block structure is never reported as incompatible or vice versa.',
  ['inputs'], 'every length, every permutation, every block structure',
  'the tests check a few fixed permutations of length at most 8; the number of permutation/block pairs grows factorially',
  ['src/qnet/utils/permutations.py', A + 'core/circuit_algebra.py'],
  [('check/invert/concatenate/block permutations', 'src/qnet/utils/permutations.py'),
   ('CPermutation.create, block_perms, series_with_permutation, _factorize_permutation', A + 'core/circuit_algebra.py')])

p('C02', 'Circuit expressions account for every channel exactly once',
  'The channel dimension of a circuit expression is determined by its parts (sum for concatenation, common value for series, one less for feedback), '
  'its block structure sums to that dimension, its Hilbert space is the product of its parts, and channel/block index conversion is exact. '
  'Mismatched dimensions are rejected with an error instead of producing an ill-formed circuit.',
  ['inputs'], 'every circuit expression, every channel index',
  'tests use a handful of circuits with at most four channels',
  [A + 'core/circuit_algebra.py'],
  [('cdim, block_structure, get_blocks, index_in_block', A + 'core/circuit_algebra.py')])

p('C03', 'Circuit simplification preserves the input-output model',
  'Whatever algebraic simplification is applied to a series product, concatenation, feedback or series inverse of components, the simplified '
  'circuit describes the same (S, L, H) model as the unsimplified composition of the same components, up to a real constant in the Hamiltonian.',
  ['inputs'], 'every circuit expression built from components, permutations, identities, feedback and series inverses',
  'tests compare the structure of a few simplified circuits with literals; the rules apply to every block structure and port assignment',
  [A + '_rules.py', A + 'core/circuit_algebra.py'],
  [('rules of SeriesProduct, Concatenation, Feedback, SeriesInverse', A + '_rules.py'),
   ('_tensor_decompose_series, _factor_permutation_for_blocks, _pull_out_perm_lhs, _pull_out_unaffected_blocks_lhs/rhs, _series_feedback', A + '_rules.py')])

p('C04', 'SLH composition follows the Gough-James rules',
  'Converting a circuit to an SLH triple composes (S, L, H) by the Gough-James rules for series and concatenation and by the feedback reduction formula, '
  'for any number of channels and any port pair; the Hamiltonian stays Hermitian when the parts are. Coherent drives, displacement of the inputs, and series inverses agree with the same rules.',
  ['inputs'], 'every pair of compatible SLH triples, every pair of ports for which 1 - S_kl is invertible',
  'tests use a few symbolic triples of one or two channels',
  [A + 'core/circuit_algebra.py', A + 'toolbox/circuit_manipulation.py', A + 'library/circuit_components.py'],
  [('SLH.series_with_slh, concatenate_slh, _feedback, expand, simplify; toSLH of every circuit class', A + 'core/circuit_algebra.py')])

p('C05', 'Simplified operator expressions denote the same operator',
  'Every operator expression obtained by constructing sums, products, scalar multiples, commutators, adjoints, displacement, squeezing and phase '
  'operators with automatic simplification denotes the same operator as the unsimplified construction, on every Hilbert space and for every value of the symbols in it.',
  ['inputs'], 'every tuple of operands, including identities, zeros, indexed and nested expressions',
  'tests compare selected simplifications with hand-written expected expressions; each rule and each operator method applies to unboundedly many operands',
  [A + '_rules.py', A + 'core/operator_algebra.py', A + 'core/abstract_quantum_algebra.py', A + 'core/algebraic_properties.py', A + 'library/fock_operators.py', A + 'library/spin_algebra.py'],
  [('rewrite rules of the operator classes', A + '_rules.py'), ('assoc, idem, orderby, filter_neutral, collect_summands, collect_scalar_summands, scalars_to_op', A + 'core/algebraic_properties.py'),
   ('__add__, __mul__, __sub__, __truediv__, __pow__', A + 'core/abstract_quantum_algebra.py')])

p('C06', 'Canonical ordering only exchanges commuting factors',
  'Bringing the factors of a product of operators or super-operators into canonical order never exchanges two factors that act on a common degree of freedom, '
  'keeps every factor exactly once, and the order of two products that denote the same rearrangement of commuting factors does not change their value.',
  ['inputs'], 'every sequence of factors on any combination of overlapping and disjoint spaces',
  'the "canonical order" relation is not transitive, so failures need three or more factors with partially overlapping spaces, which the tests do not sample',
  [A + 'core/algebraic_properties.py', 'src/qnet/utils/ordering.py'],
  [('orderby', A + 'core/algebraic_properties.py'), ('DisjunctCommutativeHSOrder, FullCommutativeHSOrder, KeyTuple', 'src/qnet/utils/ordering.py')])

p('C07', 'States, bras, inner and outer products denote the right vectors',
  'Sums, tensor products, scalar multiples, inner and outer products of states, and the application of operators to states, evaluate to expressions '
  'denoting the corresponding Hilbert-space vectors, numbers and operators. Orthonormality of basis states, coherent-state overlaps, and the action of ladder, spin, phase and displacement operators on them are exact.',
  ['inputs'], 'all states, bras, operators, basis labels and amplitudes', 'tests sample individual labels and amplitudes',
  [A + '_rules.py', A + 'core/state_algebra.py', A + 'library/fock_operators.py', A + 'library/spin_algebra.py'],
  [('rules of KetPlus, TensorKet, ScalarTimesKet, OperatorTimesKet, BraKet, KetBra', A + '_rules.py'), ('State.__mul__, to_fock_representation, overlap', A + 'core/state_algebra.py')])

p('C08', 'Super-operator expressions denote the right linear maps',
  'Sums, products, scalar multiples, and left/right multiplication super-operators simplify to expressions denoting the same linear map on operators, and applying a '
  'super-operator expression to an operator gives the operator this map assigns. Lindblad generators and Liouvillians built from a Hamiltonian and collapse operators act as the Lindblad equation prescribes.',
  ['inputs'], 'all super-operator and operator expressions', 'tests cover a few products of two super-operators',
  [A + '_rules.py', A + 'core/super_operator_algebra.py'],
  [('rules of SuperOperatorTimes, SPre, SPost, SuperOperatorTimesOperator', A + '_rules.py'), ('lindblad, liouvillian, liouvillian_normal_form, commutator, anti_commutator', A + 'core/super_operator_algebra.py')])

p('C09', 'Scalar expressions denote the right numbers',
  'Arithmetic (including powers, reflected operators and mixing with Python and SymPy numbers), conjugation and numeric conversion of scalar expressions agree with complex arithmetic for every value of their symbols.',
  ['inputs'], 'all pairs of scalar expressions, native numbers and SymPy scalars', 'tests sample particular numbers; special values such as zero, one, nested powers and indexed sums interact',
  [A + 'core/scalar_algebra.py', A + '_rules.py'],
  [('Scalar, ScalarValue, ScalarPlus, ScalarTimes, ScalarPower, ScalarIndexedSum operators', A + 'core/scalar_algebra.py'), ('rules of the scalar classes', A + '_rules.py')])

p('C10', 'Indexed sums equal the explicit sum they abbreviate',
  'An indexed sum denotes the sum of its term over the index ranges: products, scalar multiples, nested and multiple sums, contraction of Kronecker deltas, expansion and explicit evaluation all keep that value, '
  'and a free index of another factor is never captured by the summation.',
  ['inputs'], 'all terms, ranges (integer ranges, lists, Fock spaces), index names', 'tests use a few index names and ranges; capture needs coinciding index symbols',
  [A + 'core/indexed_operations.py', A + 'core/abstract_quantum_algebra.py', A + '_rules.py', 'src/qnet/utils/indices.py'],
  [('IndexedSum.create/doit/make_disjunct_indices/_substitute', A + 'core/indexed_operations.py'), ('QuantumIndexedSum.__mul__, _expand_delta', A + 'core/abstract_quantum_algebra.py'),
   ('assoc_indexed, indexed_sum_over_const, indexed_sum_over_kronecker', A + 'core/algebraic_properties.py')])

p('C11', 'Hilbert spaces form the algebra of sets of local degrees of freedom',
  'Products, intersections, removals, disjointness and containment of Hilbert spaces behave as the corresponding operations on sets of local factors, independent of order and nesting, with the trivial and the full space as extremes. '
  'Dimension, basis and the enumeration of basis labels of a product follow from those of its factors.',
  ['inputs'], 'all finite combinations of local, spin, product, trivial and full spaces', 'tests cover pairs and triples of named spaces',
  [A + 'core/hilbert_space_algebra.py', A + 'library/spin_algebra.py'],
  [('tensor, remove, intersect, isdisjoint, is_tensor_factor_of, local_factors, dimension, basis_*', A + 'core/hilbert_space_algebra.py')])

p('C12', 'Partial traces are exact',
  'A (partial) trace of an operator expression, after any simplification, denotes the partial trace of the operator over exactly the given degrees of freedom.',
  ['inputs'], 'all operators, all spaces traced over', 'tests use fixed products of two or three operators; pulling factors out of a trace is only sound for particular overlaps of spaces',
  [A + '_rules.py', A + 'core/operator_algebra.py'],
  [('rules of OperatorTrace, decompose_space, factor_for_trace', A + '_rules.py')])

p('C13', 'Adjoint and conjugation are exact involutions',
  'The adjoint of every operator, state, super-operator, operator matrix and scalar expression denotes the Hermitian conjugate, reverses products, is additive and conjugate-linear, and applied twice gives back the original object.',
  ['inputs'], 'all expressions', 'tests check single instances of each class',
  [A + 'core/abstract_quantum_algebra.py', A + 'core/operator_algebra.py', A + 'core/state_algebra.py', A + 'core/super_operator_algebra.py', A + 'core/scalar_algebra.py', A + 'core/matrix_algebra.py'],
  [('_adjoint of every class, conjugate', A + 'core/operator_algebra.py')])

p('C14', 'Substitution and rebuilding commute with evaluation',
  'Substituting symbols, indices or sub-expressions (simultaneously) denotes the original expression evaluated at the substituted values, substitution of something absent changes nothing, and rebuilding an expression from its arguments gives an equal expression. Bound indices are never substituted nor captured.',
  ['inputs'], 'all expressions and substitution maps', 'tests substitute into a few expressions with a single mapping',
  [A + 'core/abstract_algebra.py', A + 'core/indexed_operations.py', 'src/qnet/utils/indices.py', A + 'core/algebraic_properties.py'],
  [('substitute, Expression.substitute/_substitute, rebuild, doit, apply', A + 'core/abstract_algebra.py'), ('IndexedSum._substitute', A + 'core/indexed_operations.py')])

p('C15', 'Instance caching and temporary settings are transparent',
  'The result of constructing an expression does not depend on which expressions were constructed before, and the context managers that change rules, caching or printing settings take effect inside and leave every setting as it was afterwards, also when the body raises.',
  ['inputs', 'histories'], 'all sequences of constructions and nested temporary settings, including exceptions',
  'tests enter one context manager at a time',
  [A + 'core/abstract_algebra.py', A + 'toolbox/core.py', 'src/qnet/printing/__init__.py', 'src/qnet/utils/singleton.py'],
  [('configure_printing', 'src/qnet/printing/__init__.py'), ('Expression.create, _instances, add_rule, del_rules, show_rules', A + 'core/abstract_algebra.py'), ('temporary_rules, temporary_instance_cache, no_instance_caching', A + 'toolbox/core.py')])

p('C16', 'A successful pattern match is a faithful match',
  'When a pattern matches an expression, substituting the matched values for the wildcards reproduces the expression, all conditions and class restrictions hold for the matched values and repeated wildcards are bound to equal values; when it does not match, the reported failure is genuine for patterns without sequence wildcards.',
  ['inputs'], 'all patterns and expressions', 'tests match individual patterns',
  [A + 'pattern_matching/__init__.py'],
  [('Pattern.match, ProtoExpr, MatchDict, wc', A + 'pattern_matching/__init__.py'), ('match_replace, match_replace_binary', A + 'core/algebraic_properties.py')])

p('C17', 'Differentiation and series expansion are exact',
  'Differentiating an expression with respect to a symbol denotes the derivative of the operator-, state- or number-valued function, including product rule and higher orders, and the series expansion consists of its Taylor coefficients up to the requested order.',
  ['inputs'], 'all expressions, symbols, orders and expansion points', 'tests differentiate a few products',
  [A + 'core/abstract_quantum_algebra.py', A + 'core/operator_algebra.py', A + 'core/state_algebra.py', A + 'core/scalar_algebra.py', A + 'core/super_operator_algebra.py'],
  [('_diff, _series_expand of every class, QuantumDerivative', A + 'core/abstract_quantum_algebra.py')])

p('C18', 'Operator matrices follow matrix algebra',
  'Sums, products, scalar multiples, transposes, adjoints, block construction, block access and element-wise maps of operator matrices have the entries that matrix algebra over non-commuting entries prescribes, for every shape.',
  ['inputs'], 'all shapes and entries', 'tests use 2x2 matrices',
  [A + 'core/matrix_algebra.py'], [('Matrix, hstackm, vstackm, diagm, block_matrix, permutation_matrix', A + 'core/matrix_algebra.py')])

p('C19', 'QuTiP conversion is a homomorphism',
  'Converting an operator, state or super-operator to QuTiP over a finite-dimensional space gives the matrix or vector of the object it denotes, with the factors of the space in order; in particular it agrees with sums, products, adjoints and tensor products of the parts.',
  ['inputs'], 'all convertible expressions and finite spaces', 'tests convert individual operators',
  ['src/qnet/convert/to_qutip.py'], [('convert_to_qutip, _convert_local_operator_to_qutip, _convert_ket_to_qutip, _convert_superoperator_to_qutip', 'src/qnet/convert/to_qutip.py')])

p('C20', 'SymPy matrix conversion is a homomorphism',
  'Converting an operator to a SymPy matrix over a finite-dimensional space gives the matrix of that operator in the basis of the space, agreeing with sums, products, scalar multiples and tensor products of the parts.',
  ['inputs'], 'all convertible operators and finite spaces', 'tests convert a few products',
  ['src/qnet/convert/to_sympy_matrix.py'], [('convert_to_sympy_matrix', 'src/qnet/convert/to_sympy_matrix.py')])

p('C21', 'Printed expressions denote the printed object',
  'The indented and single-line repr of an expression evaluates back to an equal expression, and the ASCII, Unicode and LaTeX forms of a sum, difference, product, power or scalar multiple group sub-expressions with the parentheses needed to read them unambiguously.',
  ['inputs'], 'all expressions', 'tests render individual expressions',
  ['src/qnet/printing'], [('srepr printers', 'src/qnet/printing/sreprprinter.py'), ('parenthesize, precedence', 'src/qnet/printing/_precedence.py')])

p('C22', 'Equations stay valid under the operations offered',
  'Applying a function or method to an equation applies it to both sides, adding or multiplying equations and values acts on both sides in the stated order, and reset/tag/copy never mix up sides or histories.',
  ['inputs', 'histories'], 'all sequences of operations on equations', 'tests run one chain of operations',
  [A + 'toolbox/equation.py'], [('Eq.apply, apply_to_lhs/rhs, apply_mtd, __add__, __mul__, substitute, copy', A + 'toolbox/equation.py')])

p('C23', 'Expansion and scalar simplification preserve value',
  'Expanding, simplifying scalars, evaluating ("doit"), and rewriting commutators by the Leibniz rule leave the denoted operator, state, scalar, super-operator or matrix unchanged, and expansion leaves no product of sums.',
  ['inputs'], 'all expressions', 'tests expand a few products',
  [A + 'core/abstract_quantum_algebra.py', A + 'core/operator_algebra.py', A + 'core/super_operator_algebra.py', A + 'core/state_algebra.py', A + 'toolbox/commutator_manipulation.py'],
  [('expand/_expand, simplify_scalar, doit, expand_commutators_leibniz', A + 'core/abstract_quantum_algebra.py')])

p('C24', 'The circuit toolbox builds the intended network',
  'Connecting components with a list of port connections, extracting signals, mapping signals, adding coherent inputs and moving drives to the Hamiltonian yields a circuit with the same (S, L, H) model as wiring the named ports of the named components directly.',
  ['inputs'], 'all component lists and valid connection lists', 'tests connect two or three components',
  [A + 'toolbox/circuit_manipulation.py', A + 'core/circuit_algebra.py'],
  [('connect', A + 'toolbox/circuit_manipulation.py'), ('extract_signal, map_signals, pad_with_identity, getABCD, move_drive_to_H, try_adiabatic_elimination', A + 'core/circuit_algebra.py')])

p('C25', 'Basis labels, indices and spin coefficients are consistent',
  'Basis labels of every space map to integer positions and back, next/previous labels shift by the stated amount and stay inside the space, symbolic labels render to the label of the substituted value, '
  'and ladder coefficients of spin operators equal those of the angular-momentum algebra for every spin and quantum number.',
  ['inputs'], 'all spaces, labels, shifts and spins', 'tests cover spin up to 3/2 and selected labels',
  ['src/qnet/utils/indices.py', A + 'core/hilbert_space_algebra.py', A + 'core/state_algebra.py', A + 'library/spin_algebra.py'],
  [('next_basis_label_or_index, basis_state', A + 'core/hilbert_space_algebra.py'), ('Jpjmcoeff, Jzjmcoeff, Jmjmcoeff, SpinSpace', A + 'library/spin_algebra.py'), ('IntIndex, FockIndex, StrLabel, FockLabel, SpinIndex, IndexOverRange, IndexOverList, IndexOverFockSpace', 'src/qnet/utils/indices.py')])

p('C26', 'Equality and hashing are consistent',
  'Two expressions that compare equal have the same hash and denote the same object, equality is reflexive, symmetric and independent of the order in which commuting arguments were given, and unequal basis labels, spaces or parameters are never identified.',
  ['inputs'], 'all pairs of expressions', 'tests compare individual pairs',
  [A + 'core/abstract_algebra.py', A + 'core/scalar_algebra.py', A + 'core/hilbert_space_algebra.py'],
  [('Expression.__eq__, __hash__, instance keys', A + 'core/abstract_algebra.py'), ('ScalarTimesQuantumExpression.__eq__', A + 'core/abstract_quantum_algebra.py')])

if __name__ == '__main__':
    fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(fn, 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['id']
            f.write(json.dumps(d) + '\n')
