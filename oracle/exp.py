"""C19, C20: numeric meaning of converted expressions, computed without the
code under test (structure of the expression -> numpy)."""
import functools
import random

import numpy as np
import sympy

from pyvc import live as L
from . import pool
from .den import NoDen, expm
from .pool import NS

exec('from qnet.convert.to_qutip import convert_to_qutip, SLH_to_qutip, _time_dependent_to_qutip\n'
     'from qnet.convert.to_sympy_matrix import convert_to_sympy_matrix\n'
     'qa = LocalSpace("qa", basis=("g", "e"))\nf3 = LocalSpace("f3", dimension=3)\nf4 = LocalSpace("f4", dimension=4)\n'
     'sA = SpinSpace("sA", spin=(1, 2))\nsB = SpinSpace("sB", spin=1)\nsC = SpinSpace("sC", spin=(3, 2))\n'
     't = symbols("t", real=True)\n', NS)
OPSYM = ['A', 'B']


def basis_index(ls, lab):
    if isinstance(lab, int):
        return lab
    if isinstance(lab, str):
        if type(ls).__name__ == 'SpinSpace' and ls.label in ('sA', 'sB', 'sC'):
            s = {'sA': sympy.Rational(1, 2), 'sB': 1, 'sC': sympy.Rational(3, 2)}[ls.label]
            return int(sympy.Rational(lab) + s)
        return {'g': 0, 'e': 1}[lab] if lab in 'ge' else int(lab)
    raise NoDen('label %r' % (lab,))


DIM = {'qa': 2, 'f3': 3, 'f4': 4, 'sA': 2, 'sB': 3, 'sC': 4}


def dim(ls):
    return DIM[ls.label]


def destroy(n):
    m = np.zeros((n, n), complex)
    for i in range(1, n):
        m[i - 1, i] = np.sqrt(i)
    return m


def jplus(n):
    s = (n - 1) / 2
    m = np.zeros((n, n), complex)
    for i in range(n - 1):
        q = i - s
        m[i + 1, i] = np.sqrt(s * (s + 1) - q * (q + 1))
    return m


def symmat(name, n):
    r = random.Random('%s %d' % (name, n))
    return np.array([[complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(n)] for _ in range(n)])


def num(c, env):
    """a scalar of the expression as a number"""
    v = c.val if hasattr(c, 'val') else c
    if type(c).__name__ in ('ScalarPlus', 'ScalarTimes', 'ScalarPower'):
        vs = [num(a, env) for a in c.args]
        if type(c).__name__ == 'ScalarPlus':
            return sum(vs)
        if type(c).__name__ == 'ScalarTimes':
            return functools.reduce(lambda a, b: a * b, vs)
        return vs[0] ** vs[1]
    if type(c).__name__ == 'BraKet':
        sp = c.ket.space.local_factors
        return complex(np.vdot(ketv(c.args[0], sp, env), ketv(c.args[1], sp, env)))
    return complex(sympy.sympify(v).subs(env))


def embed(m, own, full):
    """matrix on the factors `own` -> matrix on `full` (both lists of local spaces)"""
    idx = [full.index(s) for s in own]
    rest = [i for i in range(len(full)) if i not in idx]
    do = [dim(s) for s in own]
    dr = [dim(full[i]) for i in rest]
    t = np.kron(m, np.eye(int(np.prod(dr, dtype=int)))).reshape(do + dr + do + dr)
    order = idx + rest
    perm = [order.index(i) for i in range(len(full))]
    n = len(full)
    t = t.transpose(perm + [n + p for p in perm])
    d = int(np.prod([dim(s) for s in full], dtype=int))
    return t.reshape(d, d)


def opm(x, full, env):
    c = type(x).__name__
    d = int(np.prod([dim(s) for s in full], dtype=int))
    if x is NS['IdentityOperator']:
        return np.eye(d, dtype=complex)
    if x is NS['ZeroOperator']:
        return np.zeros((d, d), complex)
    if c == 'OperatorPlus':
        return sum(opm(a, full, env) for a in x.args)
    if c == 'OperatorTimes':
        return functools.reduce(np.dot, [opm(a, full, env) for a in x.args])
    if c == 'ScalarTimesOperator':
        return num(x.args[0], env) * opm(x.args[1], full, env)
    if c == 'Adjoint':
        return opm(x.args[0], full, env).conj().T
    if c == 'PseudoInverse':
        return np.linalg.pinv(opm(x.args[0], full, env))
    if c == 'NullSpaceProjector':
        u, s, vh = np.linalg.svd(opm(x.args[0], full, env))
        k = vh[s < 1e-8 * max(s[0], 1e-300)]
        return k.conj().T @ k
    if c == 'KetBra':
        sp = list(x.args[0].space.local_factors)
        a, b = ketv(x.args[0], sp, env), ketv(x.args[1], sp, env)
        return embed(np.outer(a, b.conj()), sp, list(full))
    if c == 'OperatorSymbol':
        sp = list(x.space.local_factors)
        return embed(symmat(x.label, int(np.prod([dim(s) for s in sp], dtype=int))), sp, list(full))
    ls = x.space
    if ls not in full:
        raise NoDen(c)
    n = dim(ls)
    a = destroy(n)
    if c == 'Create':
        m = a.conj().T
    elif c == 'Destroy':
        m = a
    elif c == 'Phase':
        m = np.diag(np.exp(1j * num(x.args[0], env) * np.arange(n)))
    elif c == 'Displace':
        z = num(x.args[0], env)
        m = expm(z * a.conj().T - np.conj(z) * a)
    elif c == 'Squeeze':
        z = num(x.args[0], env)
        ad = a.conj().T
        m = expm(z / 2 * ad @ ad - np.conj(z) / 2 * a @ a)
    elif c in ('Jplus', 'Jminus', 'Jz'):
        p = jplus(n)
        m = {'Jplus': p, 'Jminus': p.conj().T, 'Jz': (p @ p.conj().T - p.conj().T @ p) / 2}[c]
    elif c in ('LocalSigma', 'LocalProjector'):
        m = np.zeros((n, n), complex)
        m[basis_index(ls, x.args[0]), basis_index(ls, x.args[-1])] = 1
    else:
        raise NoDen(c)
    return embed(m, [ls], list(full))


def ketv(x, full, env):
    c = type(x).__name__
    full = list(full)
    d = int(np.prod([dim(s) for s in full], dtype=int))
    if x is NS['ZeroKet']:
        return np.zeros(d, complex)
    if c == 'Bra':
        raise NoDen('bra')
    if c == 'KetPlus':
        return sum(ketv(a, full, env) for a in x.args)
    if c == 'ScalarTimesKet':
        return num(x.args[0], env) * ketv(x.args[1], full, env)
    if c == 'OperatorTimesKet':
        return opm(x.args[0], full, env) @ ketv(x.args[1], full, env)
    if c == 'TensorKet':
        sp, v = [], np.ones(1, complex)
        for a in x.args:
            s = list(a.space.local_factors)
            v = np.kron(v, ketv(a, s, env))
            sp += s
        t = v.reshape([dim(s) for s in sp])
        return t.transpose([sp.index(s) for s in full]).reshape(-1)
    if [x.space] != full:
        raise NoDen('ket on another space')
    if c == 'BasisKet':
        v = np.zeros(d, complex)
        v[basis_index(x.space, x.args[0])] = 1
        return v
    if c == 'CoherentStateKet':
        z = num(x.args[0], env)
        a = destroy(d)
        v = np.zeros(d, complex)
        v[0] = 1
        return expm(z * a.conj().T - np.conj(z) * a) @ v
    raise NoDen(c)


def sopm(x, full, env):
    """matrix on column-stacked operators"""
    c = type(x).__name__
    d = int(np.prod([dim(s) for s in full], dtype=int))
    if x is NS['IdentitySuperOperator']:
        return np.eye(d * d, dtype=complex)
    if x is NS['ZeroSuperOperator']:
        return np.zeros((d * d, d * d), complex)
    if c == 'SuperOperatorPlus':
        return sum(sopm(a, full, env) for a in x.args)
    if c == 'SuperOperatorTimes':
        return functools.reduce(np.dot, [sopm(a, full, env) for a in x.args])
    if c == 'ScalarTimesSuperOperator':
        return num(x.args[0], env) * sopm(x.args[1], full, env)
    if c == 'SPre':
        return np.kron(np.eye(d), opm(x.args[0], full, env))
    if c == 'SPost':
        return np.kron(opm(x.args[0], full, env).T, np.eye(d))
    raise NoDen(c)


def mapping(x, env):
    """a Qobj for every operator symbol in x"""
    import qutip
    out = {}

    def walk(e):
        if type(e).__name__ == 'OperatorSymbol':
            sp = list(e.space.local_factors)
            ds = [dim(s) for s in sp]
            out[e] = qutip.Qobj(symmat(e.label, int(np.prod(ds, dtype=int))), dims=[ds, ds])
        for a in getattr(e, 'args', ()):
            walk(a)
    walk(x)
    return out


def coeff_ok(x):
    """are all coefficients plain numbers?"""
    if type(x).__name__ in ('BraKet', 'ScalarPower', 'ScalarPlus', 'ScalarTimes', 'ScalarIndexedSum'):
        return False
    return all(coeff_ok(a) for a in getattr(x, 'args', ()) if hasattr(a, 'args'))


def truncates(x):
    """products of sums on several spaces are expanded before the conversion; the rules for ladder operators used
    there hold in the infinite-dimensional space, not for truncated matrices"""
    def walk(e):
        yield e
        for a in getattr(e, 'args', ()):
            yield from walk(a)
    es = list(walk(x))
    return (isinstance(x, L.OA.Operator) and
            any(type(e).__name__ == 'OperatorTimes' and any(len(o.space) > 1 for o in e.args) for e in es) and
            any(type(e).__name__ in ('Create', 'Destroy', 'Displace', 'Squeeze', 'Phase') for e in es))


def chk_qutip(src, full=None):
    import qutip
    x = eval(src, NS)
    sp = x.space if full is None else eval(full, NS)
    if sp == NS['TrivialSpace'] or sp is NS['FullSpace']:
        return ('skip', 'trivial space or zero state')
    if not coeff_ok(x):
        return ('skip', 'inner products in the coefficients')
    facs = list(sp.local_factors)
    ds = [dim(s) for s in facs]
    AAs = L.STA.State
    if isinstance(x, L.OA.Operator):
        want = opm(x, facs, {})
        dims = [ds, ds]
    elif isinstance(x, AAs) and x.isbra:
        want = ketv(x.ket, facs, {}).reshape(1, -1).conj()
        dims = [[1] * len(ds), ds]
    elif isinstance(x, AAs):
        want = ketv(x, facs, {}).reshape(-1, 1)
        dims = [ds, [1] * len(ds)]
    elif isinstance(x, L.SOA.SuperOperator):
        want = sopm(x, facs, {})
        dims = [[ds, ds], [ds, ds]]
    else:
        return ('skip', 'kind')
    try:
        q = NS['convert_to_qutip'](x, full_space=None if full is None else sp, mapping=mapping(x, {}) or None)
    except ValueError as e:
        if 'Cannot represent as' in str(e):
            return ('skip', 'documented')
        raise
    if not isinstance(q, qutip.Qobj):
        return ('bad', 'not a Qobj: %r' % (q,))
    got = q.full()
    if got.shape != want.shape:
        return ('bad', 'shape %s, expected %s' % (got.shape, want.shape))
    if not np.allclose(got, want, atol=1e-7):
        alt = [x] if not truncates(x) else [x.expand(), x.expand().expand()]
        if alt[0] is x or not any(np.allclose(got, opm(a, facs, {}), atol=1e-7) for a in alt):
            return ('bad', 'matrix\n%s\nexpected\n%s' % (got, want))
    if q.dims != dims and not (len(ds) == 1 and q.dims in ([[ds[0]], [1]], [[1], [ds[0]]])):
        return ('bad', 'dims %s, expected %s' % (q.dims, dims))
    return None


def chk_qutip_mapped(src, full):
    """the matrix given for an expression is the result as it is"""
    import qutip
    x, sp = eval(src, NS), eval(full, NS)
    ds = [dim(s) for s in sp.local_factors]
    q = qutip.Qobj(symmat('Q', int(np.prod(ds, dtype=int))), dims=[ds, ds])
    r = NS['convert_to_qutip'](x, full_space=sp, mapping={x: q})
    if r.dims != q.dims or not np.allclose(r.full(), q.full()):
        return ('bad', 'another matrix than the one given in the mapping')
    return None


def chk_qutip_notin(src, full):
    """an expression outside the full space is refused"""
    x = eval(src, NS)
    try:
        NS['convert_to_qutip'](x, full_space=eval(full, NS))
    except ValueError:
        return None
    return ('bad', 'accepted outside of its space')


def chk_sympy(src, full=None):
    x = eval(src, NS)
    sp = x.space if full is None else eval(full, NS)
    if sp == NS['TrivialSpace']:
        return ('skip', 'trivial space')
    if not coeff_ok(x):
        return ('skip', 'inner products in the coefficients')
    facs = list(sp.local_factors)
    env = {NS['alpha']: 0.3 + 0.4j, NS['beta']: -.5 + 0.1j, NS['x']: 0.7, NS['y']: -0.4}
    want = opm(x, facs, env)
    try:
        m = NS['convert_to_sympy_matrix'](x, None if full is None else sp)
    except NotImplementedError:
        return ('skip', 'documented')
    except ValueError as e:
        if 'Cannot represent as' in str(e):
            return ('skip', 'documented')
        raise
    if m == 0 and not hasattr(m, 'shape'):
        return None if not want.any() else ('bad', 'is 0, expected\n%s' % want)
    if tuple(m.shape) != want.shape:
        return ('bad', 'shape %s, expected %s' % (m.shape, want.shape))
    if any(isinstance(e, L.SA.Scalar) for e in m):
        return ('bad', 'entries are not SymPy expressions')
    got = np.array([[complex(sympy.sympify(m[i, j]).subs(env).evalf()) for j in range(m.shape[1])] for i in range(m.shape[0])])
    if not np.allclose(got, want, atol=1e-6):
        alt = [x] if not truncates(x) else [x.expand(), x.expand().expand()]
        if alt[0] is x or not any(np.allclose(got, opm(a, facs, env), atol=1e-6) for a in alt):
            return ('bad', 'matrix\n%s\nexpected\n%s' % (got, want))
    return None


def chk_slhqutip(h, ls, full=None, scat=None):
    """(H, [L]) generate the same Lindblad equation"""
    H = eval(h, NS)
    Ls = [eval(l, NS) for l in ls]
    n = len(Ls)
    slh = NS['SLH'](L.MA.identity_matrix(n), Ls, H)
    sp = slh.space if full is None else eval(full, NS)
    if sp == NS['TrivialSpace']:
        return ('skip', 'trivial space')
    q = NS['SLH_to_qutip'](slh, full_space=None if full is None else sp)
    facs = list(sp.local_factors)
    d = int(np.prod([dim(s) for s in facs], dtype=int))
    one = np.eye(d)

    def liou(Hm, Lm):
        out = -1j * (np.kron(one, Hm) - np.kron(Hm.T, one))
        for l in Lm:
            ld = l.conj().T
            out = out + np.kron(l.conj(), l) - .5 * np.kron(one, ld @ l) - .5 * np.kron((ld @ l).T, one)
        return out

    def opx(o):
        return opm(o, facs, {}) if isinstance(o, L.OA.Operator) else num(o, {}) * one
    want = liou(opx(H), [opx(l) for l in Ls])
    got = liou(q[0].full(), [l.full() for l in q[1]])
    if not np.allclose(want, got, atol=1e-6):
        return ('bad', 'another Liouvillian')
    return None


PAR = {'w': 1.7, 'OmegaI': 0.6}


def chk_timedep(src, conv, full=None):
    """f(t) of the nested list equals the operator at time t"""
    x = eval(src, NS)
    sp = x.space if full is None else eval(full, NS)
    facs = list(sp.local_factors)
    r = NS['_time_dependent_to_qutip'](x, full_space=sp, time_symbol=NS['t'], convert_as=conv)
    for tv in (0.3, -1.1):
        want = opm(x, facs, {NS['t']: tv, **{NS['sympy'].Symbol(k): v for k, v in PAR.items()}})

        def val(e):
            if isinstance(e, list):
                if len(e) == 2 and not hasattr(e[1], 'full') and not isinstance(e[1], list):
                    c = e[1]
                    if isinstance(c, str):
                        import math
                        v = eval(c, {'t': tv, 'exp': np.exp, 'sin': np.sin, 'cos': np.cos, 'sqrt': np.sqrt, 'pi': np.pi, **PAR})
                    else:
                        v = complex(c(tv, PAR))
                    return val(e[0]) * v
                return sum(val(a) for a in e)
            return e.full()
        if not np.allclose(val(r), want, atol=1e-7):
            return ('bad', 'at t=%s\n%s\nexpected\n%s' % (tv, val(r), want))
    return None


# ------------------------------------------------------------------ generators

LOCAL = {'qa': ['LocalSigma("g", "e", hs=qa)', 'LocalSigma("e", "g", hs=qa)', 'LocalProjector("e", hs=qa)', 'LocalSigma(1, 0, hs=qa)',
                'LocalProjector("g", hs=qa)', 'OperatorSymbol("A", hs=qa)', 'PauliY(qa)'],
         'f3': ['Create(hs=f3)', 'Destroy(hs=f3)', 'Phase(%s, hs=f3)', 'Displace(%s, hs=f3)', 'Squeeze(%s, hs=f3)', 'LocalSigma(0, 2, hs=f3)',
                'LocalSigma(2, 1, hs=f3)', 'LocalProjector(1, hs=f3)'],
         'f4': ['Create(hs=f4)', 'Destroy(hs=f4)', 'LocalSigma(3, 1, hs=f4)', 'Squeeze(%s, hs=f4)', 'Displace(%s, hs=f4)', 'OperatorSymbol("B", hs=f4)'],
         'sA': ['Jz(hs=sA)', 'Jplus(hs=sA)', 'Jminus(hs=sA)', 'LocalSigma("+1/2", "-1/2", hs=sA)', 'LocalProjector("-1/2", hs=sA)'],
         'sB': ['Jz(hs=sB)', 'Jplus(hs=sB)', 'Jminus(hs=sB)', 'LocalSigma("0", "+1", hs=sB)', 'LocalProjector("+1", hs=sB)'],
         'sC': ['Jz(hs=sC)', 'Jplus(hs=sC)', 'Jminus(hs=sC)', 'LocalSigma("+3/2", "-1/2", hs=sC)']}
KETS = {'qa': ['BasisKet("g", hs=qa)', 'BasisKet("e", hs=qa)'], 'f3': ['BasisKet(0, hs=f3)', 'BasisKet(2, hs=f3)'],
        'f4': ['BasisKet(1, hs=f4)', 'CoherentStateKet(%s, hs=f4)'], 'sA': ['BasisKet("+1/2", hs=sA)', 'BasisKet("-1/2", hs=sA)'],
        'sB': ['BasisKet("0", hs=sB)', 'BasisKet("+1", hs=sB)'], 'sC': ['BasisKet("-3/2", hs=sC)']}
NUMS = ['2', '-1', '1j', '0.5', '(0.3 - 0.8j)', 'Rational(1, 3)', 'I', 'ssqrt(2)', '(1 + I)/2']
SYMS = NUMS + ['alpha', 'x', 'alpha*beta', 'sexp(I*x)']


def rlocal(rng, sp, nums, sym):
    while True:
        s = rng.choice(LOCAL[sp])
        if not sym and 'OperatorSymbol' in s:
            continue
        return s.replace('%s', rng.choice(nums))


def rop(rng, spaces, depth, nums, sym=False):
    if depth == 0:
        return rng.choice(['IdentityOperator'] if rng.random() < .08 else [rlocal(rng, rng.choice(spaces), nums, sym)])
    k = rng.choice(['+', '*', '*', 's', 'a', 'l', '**', '-'])
    r = lambda: rop(rng, spaces, depth - 1, nums, sym)
    if k in '+-':
        return '(%s %s %s)' % (r(), k, r())
    if k == '*':
        return '(%s * %s)' % (r(), r())
    if k == '**':
        return '(%s)**2' % r()
    if k == 's':
        return '(%s) * %s' % (rng.choice(nums), r())
    if k == 'a':
        return rng.choice(['(%s).dag()', 'Adjoint(%s)' if depth == 1 else '(%s).dag()', 'Adjoint.create(%s)']) % (r() if depth > 1 else rlocal(rng, rng.choice(spaces), nums, sym))
    return r()


def rket(rng, spaces, depth, nums):
    if depth == 0 or rng.random() < .3:
        return '(' + ' * '.join(rng.choice(KETS[s]).replace('%s', rng.choice(nums)) for s in spaces) + ')'
    k = rng.choice('+s*t')
    r = lambda: rket(rng, spaces, depth - 1, nums)
    if k == '+':
        return '(%s %s %s)' % (r(), rng.choice('+-'), r())
    if k == 's':
        return '((%s) * %s)' % (rng.choice(nums), r())
    if k == '*':
        return '((%s) * %s)' % (rop(rng, spaces, 1, nums), r())
    if len(spaces) > 1:
        a = rket(rng, spaces[:1], depth - 1, nums)
        return '((%s) * (%s))' % (a, rket(rng, spaces[1:], depth - 1, nums))
    return r()


def rsop(rng, spaces, depth, nums):
    if depth == 0:
        return rng.choice(['SPre(%s)', 'SPost(%s)', 'SPre.create(%s)', 'IdentitySuperOperator', 'SPre(%s)', 'SPost(%s)', 'lindblad(%s)',
                           'commutator(%s)', 'anti_commutator(%s)']).replace('%s', rop(rng, spaces, 1, nums))
    k = rng.choice('+*s')
    r = lambda: rsop(rng, spaces, depth - 1, nums)
    if k == '+':
        return '(%s %s %s)' % (r(), rng.choice('+-'), r())
    if k == '*':
        return '(%s * %s)' % (r(), r())
    return '(%s) * %s' % (rng.choice(nums), r())


NAMES = ['qa', 'f3', 'f4', 'sA', 'sB', 'sC']
DIMS = {k: v for k, v in DIM.items()}


def rspaces(rng, n, lim=24):
    while True:
        s = rng.sample(NAMES, n)
        if np.prod([DIMS[x] for x in s]) <= lim:
            return s


def qutip_cases(rng, n):
    for s in NAMES:
        for t in LOCAL[s]:
            src = t.replace('%s', '(0.3 - 0.8j)')
            yield dict(kind='check', check='qutip', args=[src])
            yield dict(kind='check', check='qutip', args=['Adjoint(%s)' % src])
            if 'OperatorSymbol' not in src:
                yield dict(kind='check', check='qutip', args=[src, 'qa*f3*%s' % s])
                yield dict(kind='check', check='qutip', args=['PseudoInverse(%s)' % src])
                yield dict(kind='check', check='qutip', args=['NullSpaceProjector(%s)' % src])
                yield dict(kind='check', check='qutip', args=['SPre(%s)' % src, 'qa*%s' % s])
                yield dict(kind='check', check='qutip', args=['SPost(%s)' % src, 'f3*%s' % s])
            elif s != 'sA':
                yield dict(kind='check', check='qutip_mapped', args=[src, 'sA*%s' % s])
                yield dict(kind='check', check='qutip_mapped', args=[src, s])
    for s in NAMES:
        for t in KETS[s]:
            yield dict(kind='check', check='qutip', args=[t.replace('%s', '(0.3 - 0.8j)')])
    for z in ('IdentityOperator', 'ZeroOperator', 'IdentitySuperOperator', 'ZeroSuperOperator', 'ZeroKet'):
        for f in ('qa', 'f3*sA'):
            yield dict(kind='check', check='qutip', args=[z, f])
    yield dict(kind='check', check='qutip_notin', args=['Create(hs=f3)', 'qa'])
    yield dict(kind='check', check='qutip_notin', args=['Create(hs=f3)*Jz(hs=sA)', 'f3*qa'])
    for _ in range(n):
        k = rng.choice([1, 2, 2, 3])
        sp = rspaces(rng, k)
        full = None
        if rng.random() < .5:
            full = sp + [x for x in rspaces(rng, 2, 12) if x not in sp][:1]
            if np.prod([DIMS[x] for x in full]) > 40:
                full = None
            else:
                full = '*'.join(full)
        yield dict(kind='check', check='qutip', args=[rop(rng, sp, rng.choice([1, 2, 2, 3]), NUMS)] + ([full] if full else []))
    for _ in range(n // 2):
        sp = rspaces(rng, rng.choice([1, 2, 2, 3]))
        yield dict(kind='check', check='qutip', args=[rket(rng, sp, rng.choice([1, 2, 3]), NUMS)])
        yield dict(kind='check', check='qutip', args=['(%s).dag()' % rket(rng, sp, rng.choice([1, 2]), NUMS)])
        yield dict(kind='check', check='qutip', args=['KetBra.create(%s, %s)' % (rket(rng, sp, 1, NUMS), rket(rng, sp, 1, NUMS)), '*'.join(sp + [a for a in ('qa', 'sA') if a not in sp][:1])])
        yield dict(kind='check', check='qutip', args=['KetBra.create(%s, %s)' % (rket(rng, sp, 1, NUMS), rket(rng, sp, 1, NUMS))])
    for _ in range(n // 2):
        sp = rspaces(rng, rng.choice([1, 2]), 6)
        yield dict(kind='check', check='qutip', args=[rsop(rng, sp, rng.choice([0, 1, 2]), NUMS)])
    for _ in range(n // 4):
        sp = rspaces(rng, 2, 8)
        yield dict(kind='check', check='qutip', args=[rop(rng, sp[:1], 2, NUMS, True)])


def slh_cases(rng, n):
    for _ in range(n):
        sp = rspaces(rng, rng.choice([1, 2]), 8)
        h = '(lambda o: o + o.dag())(%s)' % rop(rng, sp, 1, NUMS)
        ls = [rng.choice(['%s', '%s', '(2 - 1j)', '%s + (0.5 + 1j)', '0']).replace('%s', rop(rng, sp, 1, NUMS)) for _ in range(rng.choice([1, 2, 3]))]
        yield dict(kind='check', check='slhqutip', args=[h, ls, '*'.join(sp)])
    fs = ['t', 't**2', 'sexp(I*t)', 'sympy.cos(t)', '(1 + I*t)', '2', 'sympy.cos(symbols("w")*t)', 'symbols("OmegaI")*t', 'sexp(I*symbols("w")*t)']
    for _ in range(n // 2):
        sp = rspaces(rng, rng.choice([1, 2]), 12)
        src = ' + '.join('(%s) * (%s)' % (rng.choice(fs), rop(rng, sp, 1, NUMS)) for _ in range(rng.choice([2, 3])))
        yield dict(kind='check', check='timedep', args=[src, rng.choice(['pyfunc', 'str']), '*'.join(sp)])


def sympy_cases(rng, n):
    for s in NAMES:
        for t in LOCAL[s]:
            if 'OperatorSymbol' in t:
                continue
            if '%s' in t and s == 'f3':
                for v in ('I', '(0.3 - 0.8j)', '(1 + I)/2'):
                    yield dict(kind='check', check='sympy', args=[t.replace('%s', v)])
            src = t.replace('%s', 'Rational(1, 3)')
            yield dict(kind='check', check='sympy', args=[src])
            yield dict(kind='check', check='sympy', args=['Adjoint(%s)' % src])
            yield dict(kind='check', check='sympy', args=[src, 'qa*f3*%s' % s])
    for z in ('IdentityOperator', 'ZeroOperator'):
        for f in ('qa', 'f3*sA'):
            yield dict(kind='check', check='sympy', args=[z, f])
    for _ in range(n):
        sp = rspaces(rng, rng.choice([1, 2, 2, 3]), 12)
        full = None
        if rng.random() < .4:
            full = '*'.join(sp + [x for x in ('qa', 'f3') if x not in sp][:1])
        src = rop(rng, sp, rng.choice([1, 2, 2]), SYMS)
        if 'Displace' in src or 'Squeeze' in src:
            continue
        yield dict(kind='check', check='sympy', args=[src] + ([full] if full else []))


def register(C):
    C.update(qutip=chk_qutip, qutip_mapped=chk_qutip_mapped, qutip_notin=chk_qutip_notin, sympy=chk_sympy, slhqutip=chk_slhqutip, timedep=chk_timedep)
