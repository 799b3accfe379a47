"""Pools of QNET expressions (as source text, so every case is replayable)."""
import itertools
import random

import sympy

from pyvc import live as L

NS = {}
exec('from qnet import *\nfrom qnet.algebra.core.scalar_algebra import *\n'
     'from qnet.algebra.core.operator_algebra import *\nfrom qnet.algebra.core.state_algebra import *\n'
     'from qnet.algebra.core.super_operator_algebra import *\nfrom qnet.algebra.core.hilbert_space_algebra import *\n'
     'from qnet.algebra.core.circuit_algebra import *\nfrom qnet.algebra.core.matrix_algebra import *\n'
     'from qnet.algebra.core.abstract_quantum_algebra import *\n'
     'from qnet.algebra.library.fock_operators import *\nfrom qnet.algebra.library.spin_algebra import *\n'
     'from qnet.algebra.library.pauli_matrices import *\nfrom qnet.algebra.library.circuit_components import *\n'
     'from qnet.algebra.toolbox.core import *\nfrom qnet.algebra.toolbox.circuit_manipulation import *\n'
     'from qnet.algebra.toolbox.commutator_manipulation import *\nfrom qnet.algebra.toolbox.equation import *\n'
     'from qnet.utils.indices import *\nimport sympy\nfrom sympy import symbols, sqrt as ssqrt, exp as sexp, Rational, I\n'
     'f1, f2 = LocalSpace(1), LocalSpace(2)\n'
     'q1 = LocalSpace("q1", basis=("g", "e"))\nq2 = LocalSpace("q2", dimension=2)\nq3 = LocalSpace("q3", dimension=2)\n'
     's1 = SpinSpace("s1", spin=(1, 2))\ns2 = SpinSpace("s2", spin=1)\n'
     'alpha, beta = symbols("alpha beta")\nx, y = symbols("x y", real=True)\np = symbols("p", positive=True)\n'
     'i, j, k = IdxSym("i"), IdxSym("j"), IdxSym("k")\nn, m = IdxSym("n"), IdxSym("m")\n'
     'a1, a2 = Destroy(hs=1), Destroy(hs=2)\n', NS)

SCALAR_NATIVE = ['0', '1', '2', '-1', '1j', '0.5', 'alpha', 'beta', 'x', 'x**2', 'alpha*beta', 'ssqrt(2)', 'I',
                 'sympy.conjugate(alpha)', 'Rational(1, 2)', 'sexp(I*x)', 'alpha + 1', '3*x', 'sympy.Integer(2)', 'p']
SCALAR = ['Zero', 'One', 'ScalarValue(2)', 'ScalarValue(alpha)', 'ScalarValue(x)', 'ScalarValue(1j)',
          'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))',
          'BraKet.create(KetSymbol("Psi", x, hs=q2), KetSymbol("Phi", hs=q2))',
          'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2)) + ScalarValue(alpha)',
          '2 * BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))',
          'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))**2',
          'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))**ScalarValue(alpha)',
          'ScalarIndexedSum.create(BraKet.create(KetSymbol("Psi", hs=q2), BasisKet(FockIndex(i), hs=q2)), IndexOverRange(i, 0, 1))',
          'ScalarIndexedSum.create(ScalarValue.create(symbols("x")**i), IndexOverRange(i, 0, 2))',
          'ScalarIndexedSum.create(ScalarValue.create(alpha**j), IndexOverRange(j, 1, 2))',
          'ScalarIndexedSum.create(ScalarValue.create(x**i), IndexOverList(i, (1, 3)))',
          'KetSymbol("Psi", x, hs=q2).dag() * KetSymbol("Phi", x, hs=q2)',
          'ScalarIndexedSum.create(ScalarValue.create(x**j + i), IndexOverRange(j, 0, 2))',
          'ScalarValue.create(i)']


def _o(nm, hs, args=''):
    return 'OperatorSymbol("%s"%s, hs=%s)' % (nm, args, hs)


OP = ['IdentityOperator', 'ZeroOperator'] + \
     [_o(a, h) for a in 'AB' for h in ('q1', 'q2', 'q3', 'q1*q2', 'q2*q3', 'f1', 's1')] + \
     [_o('A', 'q2', ', x'), _o('B', 'q2', ', x, alpha'), _o('C', 'f1', ', x')] + \
     ['Create(hs=f1)', 'Destroy(hs=f1)', 'Create(hs=f2)', 'Destroy(hs=f2)', 'Create(hs=f1)*Destroy(hs=f1)',
      'Destroy(hs=f1)**2', 'Phase(x, hs=f1)', 'Phase(alpha, hs=f1)', 'Phase(2, hs=f2)',
      'LocalSigma(0, 1, hs=f1)', 'LocalSigma(1, 0, hs=f1)', 'LocalSigma(1, 1, hs=f1)', 'LocalSigma("g", "e", hs=q1)',
      'LocalSigma("e", "g", hs=q1)', 'LocalProjector("e", hs=q1)', 'LocalProjector(0, hs=f1)', 'LocalProjector(1, hs=q2)',
      'LocalSigma(0, 1, hs=q2)', 'LocalSigma(1, 0, hs=q2)', 'LocalSigma(FockIndex(i), FockIndex(j), hs=f1)',
      'LocalSigma(FockIndex(i), 0, hs=f1)', 'LocalProjector(FockIndex(i), hs=f1)', 'LocalSigma(2, 1, hs=f1)',
      'LocalSigma(FockIndex(i), FockIndex(j), hs=q2)', 'LocalSigma(FockLabel(i, hs=q1), "e", hs=q1)',
      'LocalSigma(FockIndex(i + 1), FockIndex(i), hs=f1)',
      'LocalSigma(SpinIndex(i - Rational(1, 2), hs=s1), "-1/2", hs=s1)', 'LocalSigma(SpinIndex(i, hs=s2), SpinIndex(j - 1, hs=s2), hs=s2)',
      'LocalSigma("+1/2", "-1/2", hs=s1)', 'LocalSigma("0", "+1", hs=s2)', 'LocalProjector("+1/2", hs=s1)',
      'Jz(hs=s1)', 'Jplus(hs=s1)', 'Jminus(hs=s1)', 'Jz(hs=s2)', 'Jplus(hs=s2)', 'Jminus(hs=s2)',
      '2 * Destroy(hs=f1)', 'alpha * Create(hs=f1)', 'x * ' + _o('A', 'q2'), '(1j*alpha) * LocalSigma("g", "e", hs=q1)',
      _o('A', 'q1') + ' + ' + _o('B', 'q1'), _o('A', 'q1') + ' + ' + _o('B', 'q2'), 'Create(hs=f1) + Destroy(hs=f1)',
      _o('A', 'q1') + ' * ' + _o('B', 'q2'), _o('A', 'q2') + ' * ' + _o('B', 'q2'),
      _o('A', 'q1*q2') + ' * ' + _o('B', 'q2'), _o('A', 'q2') + ' * ' + _o('B', 'q1*q2') + ' * ' + _o('C', 'q1'),
      'Adjoint(' + _o('A', 'q2') + ')', '(' + _o('A', 'q1*q2') + ' * ' + _o('B', 'q2') + ').dag()',
      'OperatorPlusMinusCC(' + _o('A', 'q2') + ')', 'OperatorPlusMinusCC(' + _o('A', 'q2') + ', sign=-1)',
      'Commutator.create(' + _o('A', 'q2') + ', ' + _o('B', 'q2') + ')',
      'Commutator.create(' + _o('A', 'q1*q2') + ', ' + _o('B', 'q2') + ')',
      'KetBra.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))',
      'KetBra.create(KetSymbol("Psi", hs=q1*q2), KetSymbol("Phi", hs=q1*q2))',
      'KetBra.create(BasisKet("g", hs=q1), KetSymbol("Phi", hs=q1))',
      'OperatorTrace.create(' + _o('A', 'q1*q2') + ', over_space=q1)', 'PseudoInverse(' + _o('A', 'q2') + ')',
      'NullSpaceProjector(' + _o('A', 'q2') + ')',
      'OperatorIndexedSum.create(LocalSigma(FockIndex(i), FockIndex(i), hs=q2), IndexOverRange(i, 0, 1))',
      'OperatorIndexedSum.create(ScalarValue.create(x**i) * ' + _o('A', 'q2') + ', IndexOverRange(i, 0, 2))',
      'OperatorIndexedSum.create(LocalSigma(FockIndex(i), FockIndex(j), hs=f1), IndexOverRange(i, 0, 1), IndexOverRange(j, 0, 1))',
      'OperatorIndexedSum.create(symbols("c")**i * LocalSigma(FockIndex(i), FockIndex(i), hs=f1), IndexOverRange(i, 0, 2))',
      'OperatorIndexedSum.create(LocalSigma(FockIndex(j + 1), FockIndex(j), hs=f1), IndexOverRange(j, 0, 1))',
      'OperatorIndexedSum.create(LocalSigma(FockIndex(i), FockIndex(j), hs=q3), IndexOverRange(j, 0, 1))',
      'OperatorIndexedSum.create(ScalarValue.create(x**j + i) * ' + _o('A', 'q1') + ', IndexOverRange(j, 0, 1))',
      'SuperOperatorTimesOperator.create(SuperOperatorSymbol("S", hs=q2), ' + _o('A', 'q2') + ')',
      'PauliX(q2)', 'PauliY(q2)', 'PauliZ(q1, states=("g", "e"))']
OP_COH = ['Displace(alpha, hs=f1)', 'Displace(x, hs=f1)', 'Squeeze(x, hs=f1)', 'Displace(beta, hs=f1)',
          'Squeeze(alpha, hs=f1)', 'Create(hs=f1)', 'Destroy(hs=f1)', 'Phase(x, hs=f1)', 'LocalSigma(0, 1, hs=f1)',
          'LocalSigma(1, 1, hs=f1)', 'Phase(y, hs=f1)', 'IdentityOperator', 'Displace(-alpha, hs=f1)',
          'Displace(0, hs=f1)', 'Squeeze(0, hs=f1)', 'Phase(0, hs=f1)', 'alpha * Displace(alpha, hs=f1)']


def _k(nm, hs, args=''):
    return 'KetSymbol("%s"%s, hs=%s)' % (nm, args, hs)


KET = ['ZeroKet', 'TrivialKet'] + \
      [_k(a, h) for a in ('Psi', 'Phi') for h in ('q1', 'q2', 'q1*q2', 'q2*q3', 'f1', 's1')] + \
      [_k('Psi', 'q2', ', x'), _k('Psi', 'q2', ', x, alpha')] + \
      ['BasisKet(0, hs=f1)', 'BasisKet(1, hs=f1)', 'BasisKet(2, hs=f1)', 'BasisKet("g", hs=q1)', 'BasisKet("e", hs=q1)',
       'BasisKet(0, hs=q2)', 'BasisKet(1, hs=q2)', 'BasisKet("+1/2", hs=s1)', 'BasisKet("-1/2", hs=s1)',
       'BasisKet("0", hs=s2)', 'BasisKet("+1", hs=s2)', 'BasisKet("-1", hs=s2)', 'BasisKet(FockIndex(i), hs=f1)',
       'BasisKet(SpinIndex(i - Rational(1, 2), hs=s1), hs=s1)', 'BasisKet(SpinIndex(i, hs=s2), hs=s2)',
       'BasisKet(FockIndex(i + 1), hs=f1)', 'BasisKet(FockIndex(j), hs=q2)', 'BasisKet(FockLabel(i, hs=q1), hs=q1)',
       '2 * ' + _k('Psi', 'q2'), 'alpha * ' + _k('Phi', 'q2'), '(1j * x) * BasisKet(0, hs=q2)',
       _k('Psi', 'q2') + ' + ' + _k('Phi', 'q2'), 'BasisKet("g", hs=q1) + alpha * BasisKet("e", hs=q1)',
       'BasisKet(0, hs=f1) - BasisKet(1, hs=f1)',
       _k('Psi', 'q1') + ' * ' + _k('Phi', 'q2'), _k('Psi', 'q1') + ' * ' + _k('Phi', 'q2') + ' * BasisKet(0, hs=f1)',
       'BasisKet("g", hs=q1) * BasisKet(0, hs=q2)', '(BasisKet("g", hs=q1) + BasisKet("e", hs=q1)) * ' + _k('Phi', 'q2'),
       _o('A', 'q2') + ' * ' + _k('Psi', 'q2'), _o('A', 'q2') + ' * ' + _k('Psi', 'q1*q2'),
       _o('A', 'q1*q2') + ' * (' + _k('Psi', 'q1') + ' * ' + _k('Phi', 'q2') + ')',
       'Create(hs=f1) * BasisKet(1, hs=f1)', 'Destroy(hs=f1) * ' + _k('Psi', 'f1'),
       'KetIndexedSum.create(symbols("c")**i * BasisKet(FockIndex(i), hs=q2), IndexOverRange(i, 0, 1))',
       'KetIndexedSum.create(alpha**j * BasisKet(FockIndex(j), hs=f1), IndexOverRange(j, 0, 2))',
       'KetIndexedSum.create(BasisKet(FockIndex(i), hs=f1) * BasisKet(FockIndex(j), hs=f2), IndexOverRange(i, 0, 1), IndexOverRange(j, 0, 1))',
       'KetIndexedSum.create(BasisKet(FockLabel(i, hs=q1), hs=q1), IndexOverFockSpace(i, hs=q1))',
       'KetIndexedSum.create(ScalarValue.create(x**j + i) * BasisKet(FockIndex(j), hs=q3), IndexOverRange(j, 0, 1))']
KET_COH = ['CoherentStateKet(alpha, hs=f1)', 'CoherentStateKet(x, hs=f1)', 'CoherentStateKet(beta, hs=f1)',
           'BasisKet(0, hs=f1)', 'BasisKet(1, hs=f1)', _k('Psi', 'f1'), 'alpha * CoherentStateKet(x, hs=f1)',
           'CoherentStateKet(alpha, hs=f1) + BasisKet(0, hs=f1)', 'CoherentStateKet(0, hs=f1)']


def _s(nm, hs, args=''):
    return 'SuperOperatorSymbol("%s"%s, hs=%s)' % (nm, args, hs)


SOP = ['IdentitySuperOperator', 'ZeroSuperOperator'] + [_s(a, h) for a in 'ST' for h in ('q1', 'q2')] + \
      [_s('S', 'q2', ', x'), 'SPre(' + _o('A', 'q2') + ')', 'SPost(' + _o('A', 'q2') + ')', 'SPre(' + _o('B', 'q2') + ')',
       'SPost(' + _o('B', 'q1') + ')', 'SPre(' + _o('B', 'q1') + ')', 'SPost(' + _o('B', 'q2') + ')',
       'SPre(' + _o('A', 'q2') + ') * SPost(' + _o('B', 'q2') + ')', '2 * ' + _s('S', 'q2'), 'alpha * SPost(' + _o('A', 'q2') + ')',
       'SPre(' + _o('A', 'q2') + ') - SPost(' + _o('A', 'q2') + ')', _s('S', 'q2') + ' * ' + _s('T', 'q1'),
       _s('S', 'q2') + ' + ' + _s('T', 'q2'), 'SuperAdjoint(' + _s('S', 'q2') + ')', '(1j*alpha) * SPre(' + _o('A', 'q2') + ')',
       'SPre(' + _o('A', 'q2') + ' * ' + _o('B', 'q2') + ')', '(SPre(' + _o('A', 'q2') + ') * SPre(' + _o('B', 'q2') + '))',
       'anti_commutator(' + _o('A', 'q2') + ')', 'SPre.create(2 * ' + _o('A', 'q2') + ')', 'lindblad(' + _o('A', 'q2') + ')']
RANGE = ['IndexOverRange(i, 0, 1)', 'IndexOverRange(j, 0, 2)', 'IndexOverRange(k, 1, 1)', 'IndexOverList(i, (0, 2))',
         'IndexOverRange(i, 2, 0, -1)', 'IndexOverFockSpace(j, hs=q2)', 'IndexOverList(k, ())']
LABEL = {'f1': ['0', '1', '2', 'FockIndex(i)', 'FockIndex(i + 1)', 'FockIndex(j)'], 'q1': ['"g"', '"e"', 'FockLabel(i, hs=q1)', '0', '1'],
         'q2': ['0', '1', 'FockIndex(i)', 'FockIndex(j)', 'FockIndex(1 - i)'], 's1': ['"+1/2"', '"-1/2"', 'SpinIndex(i - Rational(1, 2), hs=s1)'],
         's2': ['"+1"', '"0"', '"-1"', 'SpinIndex(i, hs=s2)']}
POOL = {'op': OP, 'ket': KET, 'sop': SOP, 'scalar': SCALAR + ['ScalarValue.create(%s)' % s for s in SCALAR_NATIVE[6:]],
        'range': RANGE, 'anyscalar': SCALAR_NATIVE + SCALAR}
CACHE = {}


def ev(src):
    if src not in CACHE:
        try:
            CACHE[src] = eval(src, NS)
        except Exception as x:
            CACHE[src] = x
    v = CACHE[src]
    if isinstance(v, Exception):
        raise v
    return v
