"""Planted bugs: edits (file under src/qnet, old, new) and a demonstration."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


R = 'algebra/_rules.py'
PRE = 'from qnet import *\nimport sympy\nfrom sympy import symbols, sqrt, I\n'

bug('C08-sop-assoc', 'C08', [(R, 'lambda sA, sB, C: (sA * sB) * C)),', 'lambda sA, sB, C: (sB * sA) * C)),')],
    'a super-operator applied to the result of another, non-commuting super-operator', 'nested application composes in the wrong order', PRE + '''
from qnet.algebra.core.super_operator_algebra import SuperOperatorTimesOperator
A, B, C = [OperatorSymbol(n, hs=1) for n in 'ABC']
S, T = SuperOperatorSymbol('S', hs=1), SuperOperatorSymbol('T', hs=1)
r = S * SuperOperatorTimesOperator(T, C)
assert r == SuperOperatorTimesOperator(S * T, C), srepr(r)
''')

bug('C07-coherent-phase', 'C07', [(R, 'lambda ls, u, Psi_: 0', '')] if 0 else
    [(R, 'lambda ls, u, Phi: (\n                (Phi * BasisKet(0, hs=ls).adjoint()) * Displace(-u, hs=ls)))),',
      'lambda ls, u, Phi: (\n                (Phi * BasisKet(0, hs=ls).adjoint()) * Displace(u, hs=ls)))),')],
    'an outer product whose bra is a coherent state', '|Phi><alpha| becomes |Phi><0| D(alpha), i.e. the coherent state with the opposite sign', PRE + '''
hs = LocalSpace(1)
al = symbols('alpha')
psi = KetSymbol('Psi', hs=hs)
r = psi * CoherentStateKet(al, hs=hs).dag()
w = psi * (BasisKet(0, hs=hs).dag() * Displace(-al, hs=hs))
assert r == KetBra.create(psi, BasisKet(0, hs=hs)) * Displace(-al, hs=hs), srepr(r)
''')

bug('C12-trace-lift', 'C12', [(R, '                *[OperatorTrace.create(o, over_space=h1)\n                  for o in A.operands]))),',
                                 '                *[OperatorTrace.create(o, over_space=h1 & o.space)\n                  for o in A.operands]))),')],
    'the trace of a sum over a space on which one of the summands acts trivially', 'the dimension factor of the summand is lost', PRE + '''
h1, h2 = LocalSpace(1, dimension=2), LocalSpace(2, dimension=3)
A, B = OperatorSymbol('A', hs=h1), OperatorSymbol('B', hs=h2)
r = OperatorTrace.create(A + B, over_space=h2)
assert r == OperatorTrace.create(A, over_space=h2) + OperatorTrace.create(B, over_space=h2), srepr(r)
''')

bug('C05-comm-scalar', 'C05', [(R, 'lambda ls, u: Displace.create(u, hs=ls) * (Destroy(hs=ls) + u))),',
                                   'lambda ls, u: Displace.create(u, hs=ls) * (Destroy(hs=ls) + u.conjugate()))),')],
    'an annihilation operator times a displacement by a number that is not real', 'a D(alpha) = D(alpha) (a + alpha^*) instead of (a + alpha)', PRE + '''
a = Destroy(hs=1)
al = symbols('alpha')
r = (a * Displace(al, hs=1)).expand()
w = (Displace(al, hs=1) * a + al * Displace(al, hs=1)).expand()
assert r == w, srepr(r)
''')

bug('C05-sigma-phase', 'C05', [(R, 'exp(I * u * localsigma.index_k) * localsigma)),', 'exp(I * u * localsigma.index_j) * localsigma)),')],
    'a transition operator |j><k| with j != k times a phase operator', 'the phase factor uses the row instead of the column index', PRE + '''
hs = LocalSpace(1)
u = symbols('u', real=True)
r = LocalSigma(0, 2, hs=hs) * Phase(u, hs=hs)
assert r == sympy.exp(2*I*u) * LocalSigma(0, 2, hs=hs), srepr(r)
''')

bug('C09-zero-pow', 'C09', [('algebra/core/scalar_algebra.py', 'return ScalarValue.create(1**other.val)', 'return other')],
    'One raised to a power that is a ScalarValue', '1**u is u instead of 1', PRE + '''
from qnet.algebra.core.scalar_algebra import *
assert One**ScalarValue(symbols('a')) == 1
''')

bug('C05-comm-order', 'C05', [(R, "pattern_head(A, pattern(ScalarTimesOperator, v, B)),\n            lambda v, A, B: v * Commutator.create(A, B))),",
                                  "pattern_head(A, pattern(ScalarTimesOperator, v, B)),\n            lambda v, A, B: v * Commutator.create(B, A))),")],
    'a commutator whose second operand only is a scalar multiple of an operator', 'the operands are exchanged, i.e. the sign is lost', PRE + """
A, B = OperatorSymbol('A', hs=1), OperatorSymbol('B', hs=1)
r = Commutator.create(B, 3 * A)
assert r == 3 * Commutator.create(B, A), srepr(r)
""")

bug('C07-ketbra-op', 'C07', [(R, "lambda A, Psi, Phi: A * (Psi * Phi.adjoint()))),", "lambda A, Psi, Phi: A.adjoint() * (Psi * Phi.adjoint()))),")],
    'an outer product whose ket is an operator applied to a ket', 'the operator is replaced by its adjoint', PRE + """
A = OperatorSymbol('A', hs=1)
psi, phi = KetSymbol('psi', hs=1), KetSymbol('phi', hs=1)
r = KetBra.create(A * psi, phi)
assert r == A * KetBra.create(psi, phi), srepr(r)
""")

bug('C12-cyclic', 'C12', [('algebra/core/operator_algebra.py', 'rest[j:] + rest[:j] +\n                        [LocalSigma.create(m, m, hs=ls), ]', 'rest[j:] + rest[:j][::-1] +\n                        [LocalSigma.create(m, m, hs=ls), ]')],
    'the trace over the only space of a product with a transition operator preceded by two or more other factors',
    'the factors in front of the transition operator are moved behind it in reverse order', PRE + """
hs = LocalSpace(1)
A, B = OperatorSymbol('A', hs=hs), OperatorSymbol('B', hs=hs)
r = OperatorTrace.create(OperatorTimes(A, B, LocalSigma(0, 1, hs=hs), A), over_space=hs)
t = srepr(r)
assert r == OperatorTrace(OperatorTimes(LocalSigma(0, 1, hs=hs), A, A, B, LocalSigma(0, 0, hs=hs)), over_space=hs) or \
    t.index("'B'") > t.index("'A'"), t
""")


CA = 'algebra/core/circuit_algebra.py'
bug('C04-heisenberg-noise', 'C04', [(CA, '((L.adjoint() * X - X * L.adjoint()) * S * noises)', '((L.adjoint() * X - X * L.adjoint()) * S.adjoint() * noises)')],
    'symbolic_heisenberg_eom with noise inputs of a component with a scattering matrix that is not Hermitian', 'the inputs are scattered with the adjoint of the scattering matrix', PRE + """
hs = LocalSpace('q', basis=('g', 'e'))
L, X, b = OperatorSymbol('L', hs=hs), OperatorSymbol('X', hs=hs), OperatorSymbol('b', hs='n')
slh = SLH([[I]], [L], 0)
eom = slh.symbolic_heisenberg_eom(X, noises=[[b]])
want = slh.symbolic_heisenberg_eom(X) - I * b.adjoint() * (X * L - L * X) + (L.adjoint() * X - X * L.adjoint()) * I * b
assert (eom - want).expand().simplify_scalar() == ZeroOperator, eom
""")

bug('C03-perm-cycle', 'C03', [(CA, 'new_perm[n_inv] = new_perm[n - 1]\n', 'new_perm[n_inv] = new_perm[n - 1] if n < 5 else n_inv\n')],
    'feedback of one output of a permutation of five or more channels into an input', 'the routing of the feedback is lost', PRE + """
p = (1, 2, 3, 4, 0)
for o in range(5):
    for i in range(5):
        r = CPermutation.create(p).feedback(out_port=o, in_port=i)
        q = {}
        for k in range(5):
            if k != i:
                q[k] = p[k] if p[k] != o else p[i]
        want = tuple((q[k] - (q[k] > o)) for k in range(5) if k != i)
        if p[i] == o:
            continue
        assert r == (CPermutation.create(want) if want != (0, 1, 2, 3) else circuit_identity(4)), (o, i, r, want)
""")

bug('C21-ketbra-adjoint', 'C21', [('printing/asciiprinter.py', '                return rendered_bra + rendered_ket\n', '                return rendered_ket + rendered_bra\n')],
    'printing the adjoint of an outer product of composite states', 'the outer product is printed as an inner product', PRE + """
A = OperatorSymbol('A', hs=1)
psi, phi = KetSymbol('Psi', hs=1), KetSymbol('Phi', hs=1)
from qnet.printing.asciiprinter import QnetAsciiPrinter
t = QnetAsciiPrinter().doprint(KetBra(psi + phi, psi - phi), adjoint=True)
assert t.index('|Psi>') < t.index('<Psi|'), t
""")

bug('C20-displace', 'C20', [('convert/to_sympy_matrix.py', '(alpha * a - alpha.conjugate() * a.H)', '(alpha * a - alpha * a.H)')],
    'the matrix of a displacement by an amplitude that is not real', 'the matrix is not unitary', PRE + """
from qnet.convert.to_sympy_matrix import convert_to_sympy_matrix
import numpy as np
m = convert_to_sympy_matrix(Displace(sympy.I / 3, hs=LocalSpace('f', dimension=2)))
m = np.array(sympy.Matrix(m).evalf().tolist(), dtype=complex)
assert np.allclose(m.conj().T @ m, np.eye(2)), m
""")

bug('C19-squeeze', 'C19', [('convert/to_qutip.py', 's for s in all_spaces if s not in own_spaces)', 's for s in all_spaces if s in own_spaces)')],
    '', '', '') if 0 else None

bug('C19-spin-order', 'C19', [('convert/to_qutip.py', 'd = np_cos(arg) + 1j * np_sin(arg)', 'd = np_cos(arg) + 1j * np_sin(abs(arg))')],
    'the numerical representation of a phase rotation by a negative angle', 'the rotation has the wrong sign', PRE + """
from qnet.convert.to_qutip import convert_to_qutip
import numpy as np
m = convert_to_qutip(Phase(-0.5, hs=LocalSpace('f', dimension=3))).full()
assert np.allclose(m, np.diag(np.exp(-0.5j * np.arange(3)))), m
""")

bug('C26-matrix-eq', 'C26', [('algebra/core/matrix_algebra.py', '                bool((self.matrix == other.matrix).all()))', '                hash(self) == hash(other))')] if 0 else
    [('algebra/core/matrix_algebra.py', '                self.shape == other.shape and\n', '                self.matrix.size == other.matrix.size and\n')],
    'comparing a row vector of operators with a column vector', 'matrices of different shapes compare equal', PRE + """
A = OperatorSymbol('A', hs=1)
assert not (Matrix([[A, A]]) == Matrix([[A], [A]]))
""")

bug('C18-block', 'C18', [('algebra/core/matrix_algebra.py', '            if ((self.matrix[:k, k:] == 0).all() and\n                    (self.matrix[k:, :k] == 0).all()):', '            if ((self.matrix[:k, k:] == 0).all() and\n                    (self.matrix[k:, :1] == 0).all()):')],
    'the block structure of a matrix with a lower-triangular coupling that leaves out the first column', 'blocks are split although they are coupled', PRE + """
m = Matrix([[1, 2, 0], [3, 1, 0], [0, 4, 1]])
assert m.block_structure == (3,), m.block_structure
""")

bug('C14-safe', 'C14', [('algebra/core/abstract_algebra.py', 'return expr.subs(sympy_var_map, simultaneous=True)', 'return expr.subs(sympy_var_map)')],
    '', '', '') if 0 else None

bug('C02-index-in-block', 'C02', [(CA, '        if channel_index < 0 or channel_index >= self.cdim:\n            raise ValueError()\n', '        if channel_index < 0 or channel_index > self.cdim:\n            raise ValueError()\n')],
    'asking for the block of the channel just behind the last one', 'no error is raised, a channel that does not exist is located', PRE + """
c = CircuitSymbol('A', cdim=2) + CircuitSymbol('B', cdim=1)
try:
    r = c.index_in_block(3)
except ValueError:
    pass
else:
    raise AssertionError(r)
""")

bug('C12-dimension', 'C12', [('algebra/core/operator_algebra.py', 'return ls.dimension * op', 'return (ls.dimension if not isinstance(op, OperatorPlus) else 1) * op') ],
    '', '', '') if 0 else None

bug('C10-diff', 'C10', [], '', '', '') if 0 else None

bug('C22-eq-mul', 'C22', [('algebra/toolbox/equation.py', '            return Eq(lhs=(other * self.lhs), rhs=(other * self.rhs))', '            return Eq(lhs=(other * self.lhs), rhs=(self.rhs * other))')],
    'an operator times an equation between operators that do not commute with it', 'the right-hand side is multiplied from the wrong side', PRE + """
from qnet.algebra.toolbox.equation import Eq
A, B, C = [OperatorSymbol(n, hs=1) for n in 'ABC']
e = A * Eq(B, C)
assert isinstance(e, Eq) and e.lhs == A * B and e.rhs == A * C, e
""")

bug('C25-primed', 'C25', [('utils/indices.py', '    def __contains__(self, val):\n        return val in self.range\n', '    def __contains__(self, val):\n        return min(self.range) <= val <= max(self.range)\n')],
    'asking whether a value lies in an index range with a step other than one', 'values between the steps count as part of the range', PRE + """
from qnet.utils.indices import IndexOverRange, IdxSym
r = IndexOverRange(IdxSym('i'), 0, 6, 2)
assert 4 in r and 3 not in r and 7 not in r
""")

bug('C07-tensor-swap', 'C07', [('algebra/core/abstract_algebra.py', 'placeholder', '')], '', '', '') if 0 else None
