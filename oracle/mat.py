"""C18: operator matrices against entry-wise matrix algebra computed here."""
import itertools

import numpy as np
import sympy

from pyvc import live as L
from . import den as N
from .den import NoDen, Op
from .pool import ev

MA = L.MA
M = MA.Matrix


def val(e, env):
    """numeric meaning of an entry, as an operator"""
    v = N.den(e, env) if not isinstance(e, (np.integer, np.floating, np.complexfloating, np.bool_)) else complex(e)
    if isinstance(v, Op):
        return v
    return N.op_const(complex(v))


def grid(m, env):
    return [[val(m.matrix[i, j], env) for j in range(m.shape[1])] for i in range(m.shape[0])]


def add(env, a, b):
    return N.op_add(env, a, b)


def smul(env, c, a):
    return Op(a.spaces, c * a.m)


def mm(env, A, B):
    out = []
    for i in range(len(A)):
        row = []
        for j in range(len(B[0]) if B else 0):
            s = N.op_const(0)
            for k in range(len(B)):
                s = add(env, s, N.op_mul(env, A[i][k], B[k][j]))
            row.append(s)
        out.append(row)
    return out


def tr(A, r, c):
    return [[A[i][j] for i in range(r)] for j in range(c)]


def cmp(env, got, want, shape, what):
    if not isinstance(got, M):
        return ('bad', '%s is not a Matrix: %r' % (what, got))
    if tuple(got.shape) != tuple(shape):
        return ('bad', '%s has shape %s, expected %s' % (what, got.shape, shape))
    g = grid(got, env)
    for i in range(shape[0]):
        for j in range(shape[1]):
            if not N.close(env, g[i][j], want[i][j], 1e-6):
                return ('bad', '%s: entry (%d, %d) is %r' % (what, i, j, got.matrix[i, j]))
    return None


def mk(rows):
    return M([[ev(e) for e in r] for r in rows])


def shape(rows):
    return len(rows), len(rows[0])


def chk_mat1(rows):
    """operations on one matrix"""
    env = N.Env(0)
    A = mk(rows)
    r, c = shape(rows)
    a = [[val(ev(e), env) for e in row] for row in rows]
    if tuple(A.shape) != (r, c):
        return ('bad', 'shape')
    t = tr(a, r, c)
    adj = [[N.op_adj(x) for x in row] for row in t]
    neg = [[smul(env, -1, x) for x in row] for row in a]
    checks = [('matrix', lambda: A, a, (r, c)), ('copy', lambda: M(A), a, (r, c)),
              ('transpose', lambda: A.T, t, (c, r)), ('transpose()', lambda: A.transpose(), t, (c, r)),
              ('adjoint', lambda: A.adjoint(), adj, (c, r)), ('dag', lambda: A.dag(), adj, (c, r)), ('H', lambda: A.H, adj, (c, r)),
              ('twice adjoint', lambda: A.H.H, a, (r, c)), ('twice transposed', lambda: A.T.T, a, (r, c)),
              ('-A', lambda: -A, neg, (r, c)), ('expand', lambda: A.expand(), a, (r, c)),
              ('simplify_scalar', lambda: A.simplify_scalar(), a, (r, c)),
              ('element_wise', lambda: A.element_wise(lambda x, k, f=1: k * f * x, 3, f=2), [[smul(env, 6, x) for x in row] for row in a], (r, c)),
              ('rebuild', lambda: M.create(*A.args), a, (r, c)),
              ('A - A', lambda: A - A, [[smul(env, 0, x) for x in row] for row in a], (r, c)),
              ('A / 4', lambda: A / 4, [[smul(env, .25, x) for x in row] for row in a], (r, c)),
              ('substitute nothing', lambda: A.substitute({sympy.Symbol('unused'): 1}), a, (r, c))]
    for what, f, w, sh in checks:
        m = cmp(env, f(), w, sh, what)
        if m:
            return m
    if not (M(A) == A and hash(M(A)) == hash(A)):
        return ('bad', 'equality / hash of a copy')
    sub = {ev('x'): 0.25, ev('alpha'): 0.5j}
    e2 = env.with_(sub)
    m = cmp(env, A.substitute(sub), [[val(ev(e), e2) for e in row] for row in rows], (r, c), 'substitute')
    if m:
        return m
    if r == c:
        s = N.op_const(0)
        for k in range(r):
            s = add(env, s, a[k][k])
        if not N.close(env, val(A.trace(), env), s):
            return ('bad', 'trace %r' % (A.trace(),))
    else:
        for f in (lambda: A.trace(), lambda: A.block_structure):
            try:
                f()
            except (MA.NonSquareMatrix, AttributeError):
                continue
            return ('bad', 'square-matrix operation on a non-square matrix')
    z = all(abs(np.max(np.abs(x.m))) < 1e-12 for row in a for x in row)
    lit = all(ev(e) == 0 for row in rows for e in row)
    if A.is_zero and not z:
        return ('bad', 'is_zero')
    if lit and not A.is_zero:
        return ('bad', 'is_zero is False')
    # element access
    for i in range(r):
        for j in range(c):
            if not N.close(env, val(A[i, j], env), a[i][j]):
                return ('bad', 'A[%d, %d]' % (i, j))
        m = cmp(env, A[i:, :], a[i:], (r - i, c), 'A[%d:, :]' % i)
        if m:
            return m
    # real / imaginary part and conjugate of scalar matrices
    try:
        nums = None if any(isinstance(ev(e), L.OA.Operator) for row in rows for e in row) else [[complex(N.den_scalar(ev(e), env)) for e in row] for row in rows]
    except NoDen:
        nums = None
    if nums is not None and all(not isinstance(ev(e), L.OA.Operator) for row in rows for e in row):
        for what, f in (('conjugate', lambda v: v.conjugate()), ('real', lambda v: v.real), ('imag', lambda v: v.imag)):
            got = A.conjugate() if what == 'conjugate' else getattr(A, what)
            m = cmp(env, got, [[N.op_const(f(v)) for v in row] for row in nums], (r, c), what)
            if m:
                return m
    return None


def zero(e):
    return ev(e) == 0


def chk_matblocks(rows, bs):
    env = N.Env(0)
    A = mk(rows)
    r, c = shape(rows)
    a = [[val(ev(e), env) for e in row] for row in rows]
    bs = tuple(bs)
    if r == c:
        # finest block-diagonal structure
        cuts = [k for k in range(1, r) if all(zero(rows[i][j]) and zero(rows[j][i]) for i in range(k) for j in range(k, r))]
        ext = [0] + cuts + [r]
        want = tuple(ext[i + 1] - ext[i] for i in range(len(ext) - 1))
        if A.block_structure != want:
            return ('bad', 'block structure %r, expected %r' % (A.block_structure, want))
        offs = list(itertools.accumulate(bs))
        ok = sum(bs) == r and set(offs[:-1]) <= set(cuts)
    else:
        if c != 1:
            return ('skip', 'rectangular')
        ok = sum(bs) == r
    try:
        got = A._get_blocks(bs)
    except ValueError:
        return ('bad', 'compatible block structure rejected') if ok else None
    except IndexError as x:
        return ('bad', 'crash %s' % x)
    if not ok:
        return ('bad', 'incompatible block structure accepted: %r' % (got,))
    if len(got) != len(bs):
        return ('bad', 'number of blocks %r' % (got,))
    o = 0
    for k, n in enumerate(bs):
        if r == c:
            m = cmp(env, got[k], [row[o:o + n] for row in a[o:o + n]], (n, n), 'block %d' % k)
        else:
            m = cmp(env, got[k], a[o:o + n], (n, 1), 'block %d' % k)
        if m:
            return m
        o += n
    return None


def chk_mat2(A, B):
    env = N.Env(0)
    X, Y = mk(A), mk(B)
    a = [[val(ev(e), env) for e in row] for row in A]
    b = [[val(ev(e), env) for e in row] for row in B]
    (r, c), (s, d) = shape(A), shape(B)
    if c == s:
        m = cmp(env, X * Y, mm(env, a, b), (r, d), 'product')
        if m:
            return m
    else:
        try:
            Z = X * Y
        except ValueError:
            pass
        else:
            return ('bad', 'product of mismatched shapes %r' % (Z,))
    if (r, c) == (s, d):
        for what, f, g in (('sum', lambda: X + Y, lambda x, y: add(env, x, y)), ('difference', lambda: X - Y, lambda x, y: add(env, x, smul(env, -1, y)))):
            m = cmp(env, f(), [[g(a[i][j], b[i][j]) for j in range(c)] for i in range(r)], (r, c), what)
            if m:
                return m
        same = all(ev(A[i][j]) == ev(B[i][j]) for i in range(r) for j in range(c))
        if (X == Y) != same:
            return ('bad', 'equality')
        if same and hash(X) != hash(Y):
            return ('bad', 'equal matrices have different hashes')
    elif X == Y:
        return ('bad', 'matrices of different shapes compare equal')
    if r == s:
        m = cmp(env, MA.hstackm((X, Y)), [a[i] + b[i] for i in range(r)], (r, c + d), 'hstackm')
        if m:
            return m
    if c == d:
        m = cmp(env, MA.vstackm((X, Y)), a + b, (r + s, c), 'vstackm')
        if m:
            return m
    return None


def chk_matscalar(A, e):
    env = N.Env(0)
    X, y = mk(A), ev(e)
    r, c = shape(A)
    a = [[val(ev(x), env) for x in row] for row in A]
    v = val(y, env)
    w = lambda f: [[f(x) for x in row] for row in a]
    todo = [('scalar * A', lambda: y * X, w(lambda x: N.op_mul(env, v, x))), ('A * scalar', lambda: X * y, w(lambda x: N.op_mul(env, x, v)))]
    todo += [('A + s', lambda: X + y, w(lambda x: add(env, x, v))), ('s + A', lambda: y + X, w(lambda x: add(env, x, v))),
             ('A - s', lambda: X - y, w(lambda x: add(env, x, smul(env, -1, v)))), ('s - A', lambda: y - X, w(lambda x: add(env, v, smul(env, -1, x))))]
    for what, f, want in todo:
        try:
            g = f()
        except (TypeError, NotImplementedError):
            continue
        m = cmp(env, g, want, (r, c), what)
        if m:
            return m
    if not isinstance(y, L.OA.Operator) and abs(v.m[0, 0]) > 1e-9:
        m = cmp(env, X / y, w(lambda x: smul(env, 1 / v.m[0, 0], x)), (r, c), 'A / scalar')
        if m:
            return m
    return None


def chk_mat4(A, B, C, D):
    env = N.Env(0)
    X = [mk(z) for z in (A, B, C, D)]
    G = [[[val(ev(e), env) for e in row] for row in z] for z in (A, B, C, D)]
    got = MA.block_matrix(*X)
    want = [G[0][i] + G[1][i] for i in range(len(A))] + [G[2][i] + G[3][i] for i in range(len(C))]
    return cmp(env, got, want, (len(A) + len(C), len(A[0]) + len(B[0])), 'block matrix')


def chk_matmisc(n):
    env = N.Env(0)
    c = lambda v: N.op_const(v)
    one = [[c(1 if i == j else 0) for j in range(n)] for i in range(n)]
    m = cmp(env, MA.identity_matrix(n), one, (n, n), 'identity_matrix')
    if m:
        return m
    for s in (n, n + 2):
        m = cmp(env, MA.zerosm((n, s)), [[c(0)] * s for _ in range(n)], (n, s), 'zerosm')
        if m:
            return m
    for p in itertools.permutations(range(n)):
        want = [[c(1 if p[j] == i else 0) for j in range(n)] for i in range(n)]
        m = cmp(env, MA.permutation_matrix(p), want, (n, n), 'permutation_matrix(%r)' % (p,))
        if m:
            return m
    v = [ev(e) for e in ENT[:n]]
    for k in (-1, 0, 1):
        N_ = n + abs(k)
        want = [[c(0)] * N_ for _ in range(N_)]
        for i in range(n):
            want[i + max(0, -k)][i + max(0, k)] = val(v[i], env)
        m = cmp(env, MA.diagm(v, k), want, (N_, N_), 'diagm k=%d' % k)
        if m:
            return m
    m = cmp(env, M(v), [[val(e, env)] for e in v], (n, 1), 'column from a list')
    return m


def chk_matseries(rows, n):
    env = N.Env(0)
    A = mk(rows)
    r, c = shape(rows)
    x = ev('x')
    got = A.series_expand(x, 0, n)
    if len(got) != n + 1:
        return ('bad', 'number of coefficients')
    for k in range(n + 1):
        for i in range(r):
            for j in range(c):
                want = A.matrix[i, j].series_expand(x, 0, n)[k]
                if not N.close(env, val(got[k].matrix[i, j], env), val(want, env)):
                    return ('bad', 'coefficient %d, entry (%d, %d)' % (k, i, j))
    return None


ENT = ['OperatorSymbol("A", hs=q2)', 'OperatorSymbol("B", hs=q2)', 'LocalSigma(0, 1, hs=q2)', '1', '0', 'alpha', 'x', '2j',
       'OperatorSymbol("A", hs=q1)', 'OperatorSymbol("C", x, hs=q2)', 'alpha * LocalSigma(1, 0, hs=q2)', 'LocalSigma("g", "e", hs=q1)',
       'OperatorSymbol("A", hs=q2) + OperatorSymbol("B", hs=q2)', 'IdentityOperator', 'ZeroOperator', 'sexp(I*x)', 'x + I*y',
       'OperatorSymbol("A", hs=q2) * (OperatorSymbol("B", hs=q2) + x)', 'ScalarValue(alpha)', '0.5', 'sympy.conjugate(alpha)']
SC = ['1', '0', 'alpha', 'x', '2j', 'sexp(I*x)', 'x + I*y', '0.5', 'sympy.conjugate(alpha)', 'I*alpha', '-3', 'ScalarValue(alpha)', 'Zero', 'One']


def rndm(rng, r, c, zeros=0.2, pool=ENT):
    return [[('0' if rng.random() < zeros else rng.choice(pool)) for _ in range(c)] for _ in range(r)]


def case(name, *args):
    return dict(kind='check', check=name, args=list(args))


def one_cases(rng, n):
    for _ in range(n):
        r, c = rng.choice([(1, 1), (2, 2), (2, 2), (3, 3), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4), (1, 2), (4, 1)])
        yield case('mat1', rndm(rng, r, c, pool=rng.choice([ENT, ENT, SC])))


def two_cases(rng, n):
    for _ in range(n):
        r, c, d = [rng.choice([1, 2, 2, 3]) for _ in range(3)]
        A = rndm(rng, r, c)
        B = rng.choice([lambda: rndm(rng, c, d), lambda: rndm(rng, c, d), lambda: rndm(rng, r, c), lambda: rndm(rng, r, d), lambda: [list(z) for z in A]])()
        yield case('mat2', A, B)
        yield case('matscalar', A, rng.choice(ENT))
        m, k = rng.choice([1, 2]), rng.choice([1, 2])
        yield case('mat4', A, rndm(rng, r, k), rndm(rng, m, c), rndm(rng, m, k))


def block_cases(rng, n):
    from .perm import compositions
    for _ in range(n):
        if rng.random() < .3:
            r = rng.choice([1, 2, 3, 4, 5])
            rows = rndm(rng, r, 1)
        else:
            r = rng.choice([1, 2, 3, 4, 5])
            rows = [['0'] * r for _ in range(r)]
            bs = rng.choice(list(compositions(r)))
            o = 0
            for k in bs:
                for i in range(o, o + k):
                    for j in range(o, o + k):
                        rows[i][j] = rng.choice(ENT)
                o += k
            if rng.random() < .3:
                i, j = rng.randrange(r), rng.randrange(r)
                rows[i][j] = rng.choice(ENT)
            if rng.random() < .3:       # couplings in one direction only
                rows = [['0' if (i != j and rng.random() < .55) else rng.choice(ENT) for j in range(r)] for i in range(r)]
        for b in rng.sample(list(compositions(r)), min(4, 2 ** (r - 1))) + [(1,) * (r + 1)]:
            yield case('matblocks', rows, list(b))


def misc_cases(rng, n):
    for k in range(1, 5):
        yield case('matmisc', k)
    ops = [e for e in ENT if 'Operator' in e or 'Sigma' in e]
    for _ in range(n):
        yield case('matseries', rndm(rng, 2, 2, 0, ops), rng.choice([0, 1, 2]))


def register(CHECKS):
    for k, v in list(globals().items()):
        if k.startswith('chk_'):
            CHECKS[k[4:]] = v
