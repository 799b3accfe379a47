"""C14: substitution and rebuilding, against evaluation at the substituted values."""
import random

import sympy

from pyvc import live as L
from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.indexed_operations import IndexedSum
from qnet.algebra.core.abstract_quantum_algebra import QuantumDerivative
from . import cases as C
from . import den as N
from . import pool
from .pool import ev
from .misc import case

DOCUMENTED = (NotImplementedError,)


def subexpressions(e):
    """all proper parts of the expression, and itself"""
    yield e
    if isinstance(e, Expression):
        for a in list(e.args) + list(e.kwargs.values()):
            yield from subexpressions(a)
    elif isinstance(e, (tuple, list)):
        for a in e:
            yield from subexpressions(a)
    elif isinstance(e, sympy.Basic):
        yield from sympy.preorder_traversal(e)
    elif hasattr(e, 'expr'):
        yield from subexpressions(e.expr)
    elif hasattr(e, 'index_symbol'):
        for nm in ('index_symbol', 'values', 'hs'):
            if hasattr(e, nm):
                yield from subexpressions(getattr(e, nm))


def occurs(key, e):
    for s in subexpressions(e):
        try:
            if type(s) is type(key) and s == key:
                return True
        except Exception:
            pass
    return False


def value(e, env, m):
    """the value of e where every key of m has the value of m[key]"""
    env2 = env.with_({k: N.den_scalar(v, env) if not isinstance(v, int) else v for k, v in m.items() if isinstance(k, sympy.Basic)})
    for k in list(env2.over):
        if k in m and k.is_integer:
            w = complex(env2.over[k])
            if w.imag or w.real != int(w.real):
                raise N.NoDen('not an integer')
            env2.over[k] = int(w.real)
    env2.sub = {k: (v, env) for k, v in m.items() if isinstance(k, Expression)}
    return N.den(e, env2)


def chk_subst(e, map_):
    try:
        x = ev(e)
    except Exception as exc:
        return 'skip', 'operands: %s' % type(exc).__name__
    if not hasattr(x, 'substitute'):
        return 'skip', 'not an expression'
    m = {ev(a): ev(b) for a, b in map_}
    if any(isinstance(k, Expression) for k in m) and any(isinstance(s, QuantumDerivative) for s in subexpressions(x)):
        return None
    wants = []
    for env in C.envs(dict()):
        try:
            wants.append((env, value(x, env, m)))
        except (N.NoDen, ValueError, TypeError, OverflowError, IndexError, KeyError, AttributeError):
            continue
    try:
        r = x.substitute(m)
    except DOCUMENTED as exc:
        return 'skip', 'raises %s' % type(exc).__name__
    except Exception as exc:
        if not wants:
            return 'skip', 'no meaning'
        return 'bad', '(%s).substitute(%s) raises %s: %s' % (e, map_, type(exc).__name__, exc)
    sums = [s for s in subexpressions(x) if isinstance(s, IndexedSum)]
    if not any(occurs(k, x) for k in m):
        # (products with sums may be written with other bound indices)
        if not (len(sums) > 1 or any(type(s).__name__ == 'ScalarIndexedSum' for s in sums)) and not (r == x):
            return 'bad', 'substituting what does not occur, %s, turns %r into %r' % (map_, x, r)
    if not sums and x in m and not (r == m[x]):
        return 'bad', 'the expression itself is not replaced'
    done = 0
    for env, w in wants:
        try:
            got = N.den(r, env) if not isinstance(r, (int, float, complex)) else complex(r)
            ok = N.close(env, got, w, 1e-4 if 'diff' in e else 1e-6)
        except N.NoDen:
            continue
        done += 1
        if not ok:
            return 'bad', '(%s).substitute(%s)\n= %r\nexpected value %s\nobtained value %s\nfor %s' % (
                e, map_, r, C.brief(w), C.brief(got), {str(a): str(b) for a, b in env.over.items()})
    return None if done else ('skip', 'no meaning')


def chk_rebuild(e):
    try:
        x = ev(e)
    except Exception as exc:
        return 'skip', 'operands: %s' % type(exc).__name__
    if not isinstance(x, Expression):
        return 'skip', 'not an expression'
    with C.empty_caches():
        r = x.rebuild()
    if not (r == x):
        return 'bad', '(%s).rebuild() = %r instead of %r' % (e, r, x)
    if not (x.substitute({}) == x) and not any(isinstance(s, IndexedSum) for s in subexpressions(x)):
        return 'bad', '(%s).substitute({}) changes it' % e
    return None


def same_exc(f):
    try:
        return 'value', f()
    except Exception as exc:
        return 'raises', type(exc).__name__


def chk_parts(e, map_):
    """matrices, SLH, circuits, equations, ranges, labels: substitution acts on the parts"""
    from qnet.algebra.core.abstract_algebra import substitute
    x = ev(e)
    m = {ev(a): ev(b) for a, b in map_}
    r = x.substitute(m)
    nm = type(x).__name__
    want = None
    if nm == 'Matrix':
        want = x.element_wise(lambda o: substitute(o, m))
    elif nm == 'SLH':
        want = type(x)(*[substitute(a, m) for a in (x.S, x.L, x.H)])
    elif nm == 'Eq':
        if not (r.lhs == substitute(x.lhs, m) and r.rhs == substitute(x.rhs, m)):
            return 'bad', 'substituting %s in %r gives %r' % (map_, x, r)
        return None
    else:
        want = type(x).create(*[substitute(a, m) for a in x.args], **{k: substitute(v, m) for k, v in x.kwargs.items()})
    if not (r == want):
        return 'bad', 'substituting %s in %r gives %r, expected %r' % (map_, x, r, want)
    return None


def make(f, *a):
    return case(f, *a)


SUMS = ['OperatorIndexedSum.create(LocalSigma(FockIndex(i), FockIndex(j), hs=f1), IndexOverRange(i, 0, 1))',
        'OperatorIndexedSum.create(ScalarValue.create(x**i*y**j) * OperatorSymbol("A", hs=q2), IndexOverRange(i, 0, 2))',
        'OperatorIndexedSum.create(ScalarValue.create(x**(i*k)*y**(j + 2*k)) * OperatorSymbol("A", hs=q2), IndexOverRange(i, 0, 2), IndexOverRange(j, 0, 1))',
        'ScalarIndexedSum.create(ScalarValue.create(x**i + j*y), IndexOverRange(i, 1, 2))',
        'ScalarIndexedSum.create(ScalarValue.create(x**i + j*y + k), IndexOverList(i, (1, 3)), IndexOverRange(k, 0, 1))',
        'KetIndexedSum.create(ScalarValue.create(alpha**i) * BasisKet(FockIndex(i + j), hs=f1), IndexOverRange(i, 0, 2))',
        'KetIndexedSum.create(KetIndexedSum.create(ScalarValue.create(x**i*y**j) * BasisKet(FockIndex(i + j), hs=f1), IndexOverRange(i, 0, 1)), IndexOverRange(j, 0, 1))',
        'ScalarValue.create(x**i) * OperatorIndexedSum.create(ScalarValue.create(x**j) * OperatorSymbol("A", hs=q2), IndexOverRange(j, 0, 1))',
        'LocalSigma(FockIndex(i), 0, hs=q2) + OperatorIndexedSum.create(ScalarValue.create(x**i) * OperatorSymbol("A", hs=q2), IndexOverRange(i, 0, 1))',
        'OperatorSymbol("B", x, hs=q2) * OperatorIndexedSum.create(ScalarValue.create(x**i*j) * OperatorSymbol("A", x, hs=q2), IndexOverRange(i, 0, 1))',
        'KetIndexedSum.create(BasisKet(FockIndex(i), hs=q2) * BasisKet(FockIndex(j), hs=q3), IndexOverFockSpace(i, q2))']
DERIV = ['OperatorSymbol("A", x, hs=q2).diff(x)', 'OperatorSymbol("A", x, y, hs=q2).diff(x)', 'OperatorSymbol("A", x, y, hs=q2).diff(x).diff(y)',
         'OperatorSymbol("A", x, y, hs=q2).diff(x).evaluate_at({x: 2*y})', 'OperatorSymbol("A", x, hs=q2).diff(x).evaluate_at({x: y})',
         'OperatorSymbol("A", x, hs=q2).diff(x).evaluate_at({x: 3*x})', 'KetSymbol("Psi", x, y, hs=q2).diff(y)', 'x * KetSymbol("Psi", x, hs=q2).diff(x)',
         'OperatorSymbol("B", y, hs=q2) * OperatorSymbol("A", x, y, hs=q2).diff(x)', 'OperatorSymbol("A", x, hs=q2).diff(x, 2)',
         'ScalarValue(y) * OperatorSymbol("A", x*y, hs=q2).diff(x)']
SYM = ['x', 'y', 'alpha', 'beta']
VALS = {'x': ['0.3', '2', 'y', 'y**2', 'x + 1', 'x*y', '-x'], 'y': ['0.3', 'x', 'x + y', '2*y', '1'],
        'alpha': ['beta', '2', 'alpha*beta', 'x', '1j', 'alpha + 1'], 'beta': ['alpha', '0.5', 'x*alpha'],
        'i': ['0', '1', 'j', 'k', 'i + j', 'j + k', 'm'], 'j': ['0', '1', 'i', 'k', 'i + 1', 'i + k', 'n'], 'k': ['1', 'i', 'j', 'i + j']}
OPKEY = ['OperatorSymbol("%s", hs=q1)', 'OperatorSymbol("%s", hs=q2)', 'OperatorSymbol("%s", hs=q1*q2)']
KETKEY = ['KetSymbol("Psi", hs=q2)', 'KetSymbol("Phi", hs=q2)']


def rand_map(rng, idx):
    m = {}
    for s in rng.sample(SYM, rng.choice([0, 1, 1, 2])):
        m[s] = rng.choice(VALS[s])
    if idx:
        for s in rng.sample(['i', 'j', 'k'], rng.choice([1, 1, 2, 3])):
            m[s] = rng.choice(VALS[s])
    if rng.random() < .3:
        k = rng.choice(OPKEY)
        m[k % rng.choice('AB')] = rng.choice([k % 'B', k % 'C', '2*' + k % 'B', 'x*' + k % 'A', k % 'A' + ' + ' + k % 'B', k % 'A' + ' * ' + k % 'B'])
    if rng.random() < .15:
        m[KETKEY[0]] = rng.choice([KETKEY[1], '2*' + KETKEY[0], KETKEY[0] + ' + ' + KETKEY[1]])
    if rng.random() < .2:
        m[rng.choice(['OperatorSymbol("Q", hs=q1)', 'symbols("zeta")', 'IdxSym("l")'])] = rng.choice(['2', 'OperatorSymbol("R", hs=q1)'])
    return sorted(m.items())


def subst_cases(rng, n):
    base = dict(op=pool.OP, ket=pool.KET, sop=pool.SOP, scalar=pool.SCALAR)
    for e in SUMS + DERIV:
        for _ in range(max(12, n // 60)):
            yield make('subst', e, rand_map(rng, e in SUMS))
        for s in ('i', 'j', 'k') if e in SUMS else ('x', 'y'):
            for v in VALS[s]:
                yield make('subst', e, [(s, v)])
    for _ in range(n):
        sort = rng.choice(['op', 'op', 'op', 'ket', 'sop', 'scalar'])
        P = base[sort]
        e = rng.choice(P)
        w = rng.random()
        if w < .3:
            e = '(%s) + (%s)' % (e, rng.choice(P))
        elif w < .55 and sort != 'ket':
            e = '(%s) * (%s)' % (e, rng.choice(P))
        elif w < .65:
            e = '(x*alpha) * (%s)' % e
        yield make('subst', e, rand_map(rng, rng.random() < .3))


def rebuild_cases(rng, n):
    for P in (pool.OP, pool.KET, pool.SOP, pool.SCALAR, SUMS, DERIV):
        for e in P:
            yield make('rebuild', e)
    for _ in range(n):
        P = rng.choice([pool.OP, pool.KET, pool.SOP, pool.SCALAR, SUMS])
        op = rng.choice(['+', '*', '-'])
        if P is pool.KET and op == '*':
            op = '+'
        yield make('rebuild', '(%s) %s (%s)' % (rng.choice(P), op, rng.choice(P)))


PARTS = ['Matrix([[OperatorSymbol("A", hs=q1), x], [0, y*OperatorSymbol("B", hs=q1)]])',
         'SLH(Matrix([[x]]), [OperatorSymbol("A", hs=q1)], x*OperatorSymbol("B", hs=q1))',
         'Eq(OperatorSymbol("A", x, hs=q1), y*OperatorSymbol("B", hs=q1))',
         'CircuitSymbol("C", cdim=2) << CircuitSymbol("D", cdim=2)', 'CircuitSymbol("C", cdim=2) + CircuitSymbol("D", x, cdim=1)',
         'CircuitSymbol("C", x, cdim=3).feedback(out_port=0, in_port=1)',
         'OperatorSymbol("A", hs=q1*q2)', 'q1*q2', 'KetSymbol("Psi", hs=q1)*KetSymbol("Phi", hs=q2)',
         'SLH(circuit_identity(1).toSLH().S, [alpha*OperatorSymbol("A", hs=q1)], 0)']
PMAPS = [[('x', '2')], [('x', 'y'), ('y', 'x')], [('OperatorSymbol("A", hs=q1)', 'OperatorSymbol("B", hs=q1)'), ('OperatorSymbol("B", hs=q1)', 'OperatorSymbol("A", hs=q1)')],
         [('CircuitSymbol("C", cdim=2)', 'CircuitSymbol("E", cdim=2)')], [('CircuitSymbol("D", x, cdim=1)', 'CircuitSymbol("E", cdim=1)'), ('x', 'y')],
         [('q1', 'q3')], [('q1', 'q2'), ('q2', 'q1')], [('alpha', 'beta')], [('symbols("zeta")', '2')]]


def parts_cases():
    for e in PARTS:
        for m in PMAPS:
            yield make('parts', e, m)


def register(checks):
    checks.update(subst=chk_subst, rebuild=chk_rebuild, parts=chk_parts)
