"""C26: equality and hashing."""
import itertools
import random

import sympy

from pyvc import live as L   # noqa: F401
from qnet.algebra.core.abstract_algebra import Expression
from . import pool
from .pool import ev
from .misc import case


def pyeq(a, b):
    r = a == b
    return bool(r)


def chk_equality(a, b):
    """reflexive, symmetric, hash-consistent, and equal expressions denote the same"""
    from . import cases as C
    from . import den as N
    x, y = ev(a), ev(b)
    for v in (x, y):
        if not pyeq(v, v) or v != v:
            return 'bad', '%r is not equal to itself' % (v,)
        hash(v)
    e = pyeq(x, y)
    if not isinstance(x, sympy.Basic) and not isinstance(y, sympy.Basic) and e != pyeq(y, x):
        return 'bad', '%r == %r is %s, reversed %s' % (x, y, e, not e)
    if (x != y) is e:
        return 'bad', '== and != agree for %r, %r' % (x, y)
    if e and hash(x) != hash(y) and not (isinstance(x, sympy.Basic) or isinstance(y, sympy.Basic)):
        return 'bad', '%r == %r, but the hashes differ' % (x, y)
    if e and (len({x, y}) != 1) and not (isinstance(x, sympy.Basic) or isinstance(y, sympy.Basic)):
        return 'bad', 'set of %r, %r' % (x, y)
    if e and a != b and isinstance(x, Expression) and isinstance(y, Expression):
        try:
            es = C.envs(dict(kind='binop', op='+', args=[a, b]))
        except Exception:
            return None
        for env in es:
            try:
                u, v = N.den(x, env), N.den(y, env)
                ok = N.close(env, u, v, 1e-6)
            except (N.NoDen, ValueError, TypeError, IndexError, KeyError, AttributeError):
                continue
            if not ok:
                return 'bad', '%r == %r, but they denote different objects' % (x, y)
    return None


def chk_rebuilt(src):
    """an independently constructed copy is equal"""
    from qnet.algebra.toolbox.core import temporary_instance_cache
    x = ev(src)
    with temporary_instance_cache(*[c for c in _classes() if '_instances' in vars(c)]):
        y = eval(src, pool.NS)
    for u, v in ((x, y), (y, x)):
        if not pyeq(u, v) or u != v:
            return 'bad', 'two constructions of %r are not equal' % (x,)
    if hash(x) != hash(y):
        return 'bad', 'two constructions of %r have different hashes' % (x,)
    if isinstance(x, Expression):
        z = type(x)(*x.args, **x.kwargs)
        if not pyeq(x, z) or not pyeq(z, x) or hash(x) != hash(z):
            return 'bad', '%r is not equal to its reconstruction %r' % (x, z)
    return None


def _classes():
    todo, out = [Expression], []
    for c in todo:
        out.append(c)
        todo.extend(s for s in c.__subclasses__() if s not in todo)
    return out


def chk_order(cls, args, perm):
    """independent of the order of commuting arguments"""
    C = pool.NS[cls]
    xs = [ev(a) for a in args]
    ys = [xs[i] for i in perm]
    a, b = C.create(*xs), C.create(*ys)
    if not pyeq(a, b) or not pyeq(b, a) or hash(a) != hash(b):
        return 'bad', '%s of %s depends on their order: %r, %r' % (cls, args, a, b)
    return None


def chk_unequal(a, b):
    x, y = ev(a), ev(b)
    if pyeq(x, y) or pyeq(y, x) or not (x != y):
        return 'bad', '%s and %s compare equal' % (a, b)
    if len({x, y}) != 2:
        return 'bad', '%s and %s are identified in a set' % (a, b)
    d = {x: 1}
    if y in d:
        return 'bad', '%s is found under %s' % (b, a)
    return None


# families whose members are pairwise different
FAMILIES = [
    ['LocalSpace("1")', 'LocalSpace("2")', 'LocalSpace("1", dimension=2)', 'LocalSpace("1", dimension=3)', 'LocalSpace("1", basis=("g", "e"))',
     'LocalSpace("1", basis=("e", "g"))', 'LocalSpace("1", basis=("0", "e"))', 'LocalSpace("q1", basis=("g", "e"))', 'SpinSpace("1", spin=(1, 2))',
     'SpinSpace("1", spin=1)', 'SpinSpace("2", spin=1)', 'SpinSpace("1", spin=1, basis=("-", "0", "+"))', 'TrivialSpace', 'FullSpace', 'f1*f2', 'q1*q2', 'q1*q2*q3', 'q1*q3',
     'LocalSpace("1")*LocalSpace("2", dimension=2)', 'LocalSpace("a", order_index=1)', 'LocalSpace("b", order_index=1)'],
    ['%s("A"%s, hs=%s)' % (c, a, h) for c in ('OperatorSymbol', 'KetSymbol', 'SuperOperatorSymbol') for a in ('', ', x', ', y', ', x, y', ', y, x', ', x, x')
     for h in ('q1', 'q2', 'q1*q2', 'f1')] + ['OperatorSymbol("B", hs=q1)', 'KetSymbol("B", hs=q1)', 'CircuitSymbol("A", cdim=1)', 'CircuitSymbol("A", cdim=2)',
                                              'CircuitSymbol("B", cdim=1)', 'CircuitSymbol("A", x, cdim=1)'],
    ['BasisKet(%s, hs=%s)' % (l, h) for l, h in [('0', 'f1'), ('1', 'f1'), ('2', 'f1'), ('10', 'f1'), ('0', 'f2'), ('1', 'f2'), ('"g"', 'q1'), ('"e"', 'q1'), ('0', 'q2'), ('1', 'q2'),
                                                 ('FockIndex(i)', 'f1'), ('FockIndex(j)', 'f1'), ('FockIndex(i+1)', 'f1'), ('FockLabel(i, hs=q1)', 'q1'), ('"+1/2"', 's1'),
                                                 ('"-1/2"', 's1'), ('"+1"', 's2'), ('"-1"', 's2'), ('"0"', 's2'), ('SpinIndex(i, hs=s2)', 's2'), ('SpinIndex(j, hs=s2)', 's2')]] +
    ['CoherentStateKet(alpha, hs=f1)', 'CoherentStateKet(beta, hs=f1)', 'CoherentStateKet(alpha, hs=f2)', 'CoherentStateKet(1, hs=f1)', 'CoherentStateKet(1j, hs=f1)',
     'ZeroKet', 'TrivialKet', 'Bra(BasisKet(0, hs=f1))', 'Bra(BasisKet(1, hs=f1))'],
    ['LocalSigma(%s, %s, hs=%s)' % t for t in [('0', '1', 'f1'), ('1', '0', 'f1'), ('2', '0', 'f1'), ('0', '2', 'f1'), ('0', '1', 'f2'), ('1', '11', 'f1'), ('11', '1', 'f1'), ('"g"', '"e"', 'q1'),
                                               ('"e"', '"g"', 'q1'), ('0', '1', 'q2'), ('FockIndex(i)', 'FockIndex(j)', 'f1'), ('FockIndex(j)', 'FockIndex(i)', 'f1'), ('FockIndex(i)', 'FockIndex(j)', 'q2')]] +
    ['LocalProjector(0, hs=f1)', 'LocalProjector(1, hs=f1)', 'LocalProjector(0, hs=q2)', 'LocalProjector("g", hs=q1)'],
    ['Create(hs=f1)', 'Create(hs=f2)', 'Destroy(hs=f1)', 'Destroy(hs=f2)', 'Phase(x, hs=f1)', 'Phase(y, hs=f1)', 'Phase(x, hs=f2)', 'Displace(x, hs=f1)', 'Displace(y, hs=f1)', 'Displace(-x, hs=f1)',
     'Squeeze(x, hs=f1)', 'Squeeze(y, hs=f1)', 'Squeeze(x, hs=f2)', 'Jz(hs=s1)', 'Jz(hs=s2)', 'Jplus(hs=s1)', 'Jminus(hs=s1)', 'IdentityOperator', 'ZeroOperator',
     'Create(hs=f1)*Destroy(hs=f1)', 'Destroy(hs=f1)*Destroy(hs=f1)', 'Displace(ssqrt(2), hs=f1)'],
    ['ScalarValue(2)', 'ScalarValue(3)', 'ScalarValue(-2)', 'ScalarValue(alpha)', 'ScalarValue(beta)', 'ScalarValue(2*alpha)', 'ScalarValue(1j)', 'Zero', 'One',
     'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))', 'BraKet.create(KetSymbol("Phi", hs=q2), KetSymbol("Psi", hs=q2))',
     'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))**2', 'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))**3',
     'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))*2', 'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))+2',
     'BraKet.create(KetSymbol("Psi", hs=q1), KetSymbol("Phi", hs=q1))'],
    ['ScalarIndexedSum.create(BraKet.create(KetSymbol("Psi", hs=q2), BasisKet(FockIndex(%s), hs=q2))*x**%s, %s)' % (a, a, r) for a, r in
     [('i', 'IndexOverRange(i, 0, 1)'), ('i', 'IndexOverRange(i, 0, 2)'), ('i', 'IndexOverRange(i, 1, 2)'), ('i', 'IndexOverRange(i, 0, 2, 2)'), ('i', 'IndexOverList(i, (0, 2, 1))'),
      ('i', 'IndexOverList(i, (0, 1, 3))'), ('i', 'IndexOverFockSpace(i, hs=q2)'), ('i', 'IndexOverFockSpace(i, hs=q3)')]],
    ['OperatorSymbol("A", hs=q1) + OperatorSymbol("B", hs=q1)', 'OperatorSymbol("A", hs=q1) + OperatorSymbol("A", hs=q2)', '2*OperatorSymbol("A", hs=q1)', '3*OperatorSymbol("A", hs=q1)',
     'alpha*OperatorSymbol("A", hs=q1)', '-OperatorSymbol("A", hs=q1)', 'OperatorSymbol("A", hs=q1)*OperatorSymbol("B", hs=q1)', 'OperatorSymbol("B", hs=q1)*OperatorSymbol("A", hs=q1)',
     'OperatorSymbol("A", hs=q1)*OperatorSymbol("A", hs=q1)', 'Commutator.create(OperatorSymbol("A", hs=q1), OperatorSymbol("B", hs=q1))', 'Adjoint(OperatorSymbol("A", hs=q1))',
     'PseudoInverse(OperatorSymbol("A", hs=q1))', 'NullSpaceProjector(OperatorSymbol("A", hs=q1))', 'OperatorPlusMinusCC(OperatorSymbol("A", hs=q1))',
     'OperatorPlusMinusCC(OperatorSymbol("A", hs=q1), sign=-1)', 'OperatorTrace.create(OperatorSymbol("A", hs=q1*q2), over_space=q1)', 'OperatorTrace.create(OperatorSymbol("A", hs=q1*q2), over_space=q2)',
     'OperatorTrace.create(OperatorSymbol("A", hs=q1*q2), over_space=q1*q2)', 'SPre(OperatorSymbol("A", hs=q1))', 'SPost(OperatorSymbol("A", hs=q1))', 'SPre(OperatorSymbol("B", hs=q1))',
     'OperatorSymbol("A", x, hs=q1).diff(x)', 'OperatorSymbol("A", x, hs=q1).diff(x, n=2)', 'OperatorSymbol("A", x, y, hs=q1).diff(x)', 'OperatorSymbol("A", x, y, hs=q1).diff(y)',
     'OperatorSymbol("A", x, y, hs=q1).diff(x).diff(y)', 'OperatorDerivative(OperatorSymbol("A", x, hs=q1), derivs={x: 1}, vals={x: 1})',
     'OperatorDerivative(OperatorSymbol("A", x, hs=q1), derivs={x: 1}, vals={x: 2})', 'OperatorDerivative(OperatorSymbol("A", x, hs=q1), derivs={x: 2}, vals={x: 1})',
     'KetBra.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))', 'KetBra.create(KetSymbol("Phi", hs=q2), KetSymbol("Psi", hs=q2))'],
    ['CPermutation.create(%s)' % (p,) for p in [(1, 0), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 3, 2)]] +
    ['CircuitSymbol("C", cdim=2)', 'CircuitSymbol("C", cdim=3)', 'FB(CircuitSymbol("C", cdim=3), out_port=0, in_port=0)', 'FB(CircuitSymbol("C", cdim=3), out_port=0, in_port=1)',
     'FB(CircuitSymbol("C", cdim=3), out_port=1, in_port=0)', 'FB(CircuitSymbol("D", cdim=3), out_port=0, in_port=0)', 'SeriesInverse(CircuitSymbol("C", cdim=2))',
     'CircuitSymbol("C", cdim=2) << CircuitSymbol("D", cdim=2)', 'CircuitSymbol("D", cdim=2) << CircuitSymbol("C", cdim=2)', 'CircuitSymbol("C", cdim=2) + CircuitSymbol("D", cdim=2)',
     'CircuitSymbol("D", cdim=2) + CircuitSymbol("C", cdim=2)', 'circuit_identity(1)', 'circuit_identity(2)', 'Beamsplitter(label="BS")', 'Beamsplitter(label="BS2")', 'Beamsplitter(label="BS", mixing_angle=x)', 'Beamsplitter(label="BS", mixing_angle=y)',
     'PhaseCC(label="P", phase=x)', 'PhaseCC(label="P", phase=y)', 'CoherentDriveCC(label="W", displacement=x)', 'CoherentDriveCC(label="W", displacement=y)',
     'SLH([[1]], [0], 0)', 'SLH([[-1]], [0], 0)', 'SLH([[1]], [Destroy(hs=f1)], 0)', 'SLH([[1]], [Destroy(hs=f2)], 0)', 'SLH([[1]], [0], Create(hs=f1)*Destroy(hs=f1))'],
    ['Matrix([[1, 2], [3, 4]])', 'Matrix([[1, 3], [2, 4]])', 'Matrix([1, 2, 3, 4])', 'Matrix([[1, 2, 3, 4]])', 'Matrix([[1, 2], [3, 5]])', 'Matrix([[OperatorSymbol("A", hs=q1)]])', 'Matrix([[OperatorSymbol("B", hs=q1)]])'],
    ['IndexOverRange(i, 0, 1)', 'IndexOverRange(i, 0, 2)', 'IndexOverRange(i, 1, 2)', 'IndexOverRange(i, 0, 2, 2)', 'IndexOverRange(j, 0, 1)', 'IndexOverList(i, (0, 2, 1))', 'IndexOverList(i, (0, 1))', 'IndexOverList(i, (1, 0))',
     'IndexOverList(j, (0, 1))', 'IndexOverFockSpace(i, hs=q2)', 'IndexOverFockSpace(i, hs=q3)', 'IndexOverFockSpace(j, hs=q2)'],
    ['FockIndex(i)', 'FockIndex(j)', 'FockIndex(i+1)', 'FockLabel(i, hs=q1)', 'FockLabel(j, hs=q1)', 'FockLabel(i, hs=q2)', 'SpinIndex(i, hs=s1)', 'SpinIndex(i, hs=s2)', 'SpinIndex(j, hs=s1)', 'IntIndex(i)', 'IntIndex(j)',
     'StrLabel(i)', 'StrLabel(j)'],
    ['IdxSym("i")', 'IdxSym("j")', 'IdxSym("i", primed=1)', 'IdxSym("i", primed=2)', 'IdxSym("i", integer=False)', 'IdxSym("i", positive=True)', 'symbols("i")'],
]


def distinct_cases():
    for f in FAMILIES:
        for a, b in itertools.combinations(f, 2):
            yield case('unequal', a, b)


COMM = {'OperatorPlus': 'op', 'KetPlus': 'ket', 'SuperOperatorPlus': 'sop', 'ScalarPlus': 'scalar', 'ScalarTimes': 'scalar'}
LOCALOPS = ['OperatorSymbol("A", hs=q1)', 'OperatorSymbol("B", hs=q2)', 'OperatorSymbol("C", hs=q3)', 'Create(hs=f1)', 'Destroy(hs=f2)', 'LocalSigma("g", "e", hs=q1)', 'LocalSigma(0, 1, hs=q3)', 'alpha*OperatorSymbol("A", hs=q2)']
LOCALKETS = ['KetSymbol("A", hs=q1)', 'KetSymbol("B", hs=q2)', 'BasisKet(0, hs=q3)', 'BasisKet(1, hs=f1)', 'CoherentStateKet(alpha, hs=f2)', 'BasisKet("g", hs=q1)', '2*KetSymbol("B", hs=q2)']
SPACES = ['q1', 'q2', 'q3', 'f1', 'f2', 's1', 's2', 'TrivialSpace', 'q1*q2', 'f1*s1']


def order_cases(rng, n):
    for _ in range(n):
        r = rng.random()
        if r < .6:
            cls = rng.choice(list(COMM))
            args = [rng.choice(pool.POOL[COMM[cls]]) for _ in range(rng.choice([2, 3, 3, 4]))]
        else:
            cls, src = rng.choice([('OperatorTimes', LOCALOPS), ('TensorKet', LOCALKETS), ('ProductSpace', SPACES)])
            k = rng.choice([2, 3, 4])
            args = rng.sample(src, min(k, len(src)))
            try:
                if cls == 'ProductSpace':
                    pass
                else:
                    sp = [ev(a).space for a in args]
                    if any(not a.isdisjoint(b) for a, b in itertools.combinations(sp, 2)):
                        continue
            except Exception:
                continue
        p = list(range(len(args)))
        rng.shuffle(p)
        try:
            xs = [ev(a) for a in args]
            if COMM.get(cls) == 'ket' and len({x.space for x in xs if not getattr(x, '_is_zero', False)}) > 1:
                continue
            pool.NS[cls].create(*xs)
        except Exception:
            continue
        yield case('order', cls, args, p)


NATIVE = ['0', '1', '2', '1j', 'alpha', 'x', '2*alpha', '"A"', 'None', '()', 'sympy.Integer(2)', '0.5', 'Rational(1, 2)']


def eq_cases(rng, n):
    allp = pool.OP + pool.KET + pool.SOP + pool.SCALAR + [s for f in FAMILIES for s in f] + pool.OP_COH + pool.KET_COH
    for s in allp:
        yield case('equality', s, s)
        yield case('rebuilt', s)
    for _ in range(n):
        a = rng.choice(allp)
        b = rng.choice(allp + NATIVE * 3)
        yield case('equality', a, b)
    vals = ['BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))', 'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))*IdentityOperator', '(BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))+2)*IdentityOperator', 'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))+2', '(2*BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2)))*IdentityOperator', '2*BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))', 'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))**2*IdentityOperator', 'BraKet.create(KetSymbol("Psi", hs=q2), KetSymbol("Phi", hs=q2))**2',
            'IdentityOperator', '2*IdentityOperator', 'alpha*IdentityOperator', '0*IdentityOperator', 'ScalarValue(2)', 'ScalarValue(alpha)', 'One', 'Zero', 'ZeroOperator', 'ZeroKet', 'TrivialKet',
            'ScalarValue(2*alpha)', '(2*alpha)*IdentityOperator', 'IdentitySuperOperator', '2*IdentitySuperOperator', '2*TrivialKet', 'ScalarValue(0.5)', '0.5*IdentityOperator', 'CIdentity', 'CircuitZero', 'circuit_identity(1)']
    for a, b in itertools.product(vals + NATIVE, repeat=2):
        if a in NATIVE and b in NATIVE:
            continue
        yield case('equality', a, b)


def register(CHECKS):
    CHECKS.update(equality=chk_equality, rebuilt=chk_rebuilt, order=chk_order, unequal=chk_unequal)
