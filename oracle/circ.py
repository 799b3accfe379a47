"""Numeric (S, L, H) meaning of circuits, from the Gough-James rules."""
import itertools
import random

import numpy as np
import sympy

from pyvc import live as L
from . import den as N
from . import pool
from .den import NoDen, Op, op_const
from .pool import ev


class Slh:
    """S: n x n, Ls: n, H as blocks over common sorted spaces"""

    def __init__(self, n, spaces, S, Lv, H):
        self.n, self.spaces, self.S, self.L, self.H = n, tuple(spaces), S, Lv, H    # S (n,n,d,d), L (n,d,d), H (d,d)


def _dim(env, sp):
    return int(np.prod(N.dims(env, sp))) if sp else 1


def lift(env, g, sp):
    if g.spaces == sp:
        return g
    e = lambda m: N.extend(env, Op(g.spaces, m), sp)
    d = _dim(env, sp)
    S = np.zeros((g.n, g.n, d, d), complex)
    Lv = np.zeros((g.n, d, d), complex)
    for a in range(g.n):
        Lv[a] = e(g.L[a])
        for b in range(g.n):
            S[a, b] = e(g.S[a, b])
    return Slh(g.n, sp, S, Lv, e(g.H))


def join(env, *gs):
    sp = N.sort_spaces([s for g in gs for s in g.spaces])
    return [lift(env, g, sp) for g in gs]


def dagm(M):
    """adjoint of an operator matrix (a,b,d,d)"""
    return M.conj().transpose(1, 0, 3, 2)


def mul(A, B):
    return np.einsum('abij,bcjk->acik', A, B)


def im(m):
    return (m - m.conj().T) / 2j


def series(env, g, f):
    g, f = join(env, g, f)
    if g.n != f.n:
        raise NoDen('dimension mismatch')
    if g.n == 0:
        return Slh(0, g.spaces, g.S, g.L, g.H + f.H)
    S = mul(g.S, f.S)
    fl = f.L[:, None]
    Lv = g.L + mul(g.S, fl)[:, 0]
    m = mul(dagm(g.L[:, None]), mul(g.S, fl))[0, 0]
    return Slh(g.n, g.spaces, S, Lv, g.H + f.H + im(m))


def concat(env, g, f):
    g, f = join(env, g, f)
    d = g.H.shape[0]
    n = g.n + f.n
    S = np.zeros((n, n, d, d), complex)
    S[:g.n, :g.n] = g.S
    S[g.n:, g.n:] = f.S
    return Slh(n, g.spaces, S, np.concatenate([g.L, f.L]) if n else g.L, g.H + f.H)


def feedback(env, g, conns):
    """conns: [(out, in)], all closed at once"""
    outs = [o for o, _ in conns]
    ins = [i for _, i in conns]
    eo = [k for k in range(g.n) if k not in outs]
    ei = [k for k in range(g.n) if k not in ins]
    d = g.H.shape[0]
    m = len(conns)
    flat = lambda M: M.transpose(0, 2, 1, 3).reshape(M.shape[0] * d, M.shape[1] * d)
    unflat = lambda F, a, b: F.reshape(a, d, b, d).transpose(0, 2, 1, 3)
    Sii = g.S[np.ix_(outs, ins)]
    W = np.eye(m * d) - flat(Sii)
    if np.linalg.cond(W) > 1e6:
        raise NoDen('singular feedback')
    W = unflat(np.linalg.inv(W), m, m)
    Sei, Sie, See = g.S[np.ix_(eo, ins)], g.S[np.ix_(outs, ei)], g.S[np.ix_(eo, ei)]
    Li, Le = g.L[outs][:, None], g.L[eo]
    S = See + mul(mul(Sei, W), Sie)
    Lv = Le + mul(mul(Sei, W), Li)[:, 0] if eo else Le
    Sall = g.S[:, ins]
    x = mul(mul(mul(dagm(g.L[:, None]), Sall), W), Li)[0, 0]
    return Slh(len(eo), g.spaces, S, Lv, g.H + im(x))


def inverse(env, g):
    St = dagm(g.S)
    return Slh(g.n, g.spaces, St, -mul(St, g.L[:, None])[:, 0] if g.n else g.L, -g.H)


def ident(n):
    return Slh(n, (), np.eye(n, dtype=complex)[:, :, None, None], np.zeros((n, 1, 1), complex), np.zeros((1, 1), complex))


def perm(p):
    n = len(p)
    S = np.zeros((n, n, 1, 1), complex)
    for j, i in enumerate(p):
        S[i, j] = 1
    return Slh(n, (), S, np.zeros((n, 1, 1), complex), np.zeros((1, 1), complex))


def symbol(env, label, args, n):
    key = (env.seed, 'circ', label, tuple(complex(N.den_scalar(a, env)) for a in args), n)
    r = N._rng(*key)
    q, _ = np.linalg.qr(N._cplx(r, n, n))
    S = q[:, :, None, None] * np.eye(2)[None, None]
    Lv = 0.7 * N._cplx(r, n, 2, 2)
    h = N._cplx(r, 2, 2)
    return Slh(n, (L.HSA.LocalSpace('c_' + label.replace('_', ''), dimension=2),), S, Lv, (h + h.conj().T) / 2)


def of_ops(env, S, Lv, H):
    n = len(Lv)
    f = lambda x: x if isinstance(x, Op) else op_const(complex(x))
    S = [[f(x) for x in row] for row in S]
    Lv = [f(x) for x in Lv]
    H = f(H)
    sp = N._join(H, *Lv, *[x for r in S for x in r])
    d = _dim(env, sp)
    s = np.zeros((n, n, d, d), complex)
    l = np.zeros((n, d, d), complex)
    for a in range(n):
        l[a] = N.extend(env, Lv[a], sp)
        for b in range(n):
            s[a, b] = N.extend(env, S[a][b], sp)
    return Slh(n, sp, s, l, N.extend(env, H, sp))


def den(c, env):
    CA = L.CA
    t = type(c).__name__
    if c is CA.CircuitZero:
        return ident(0)
    if c is CA.CIdentity:
        return ident(1)
    if isinstance(c, CA.SLH):
        M = c.S.matrix
        return of_ops(env, [[N.den(x, env) for x in row] for row in M], [N.den(x, env) for x in c.L.matrix.ravel()], N.den(c.H, env))
    if t == 'CPermutation':
        return perm(c.permutation)
    if t == 'CoherentDriveCC':
        a = complex(N.den_scalar(c.displacement, env))
        return of_ops(env, [[1]], [a], 0)
    if t == 'PhaseCC':
        return of_ops(env, [[np.exp(1j * complex(N.den_scalar(c.phase, env)))]], [0], 0)
    if t == 'Beamsplitter':
        th = complex(N.den_scalar(c.mixing_angle, env)).real
        return of_ops(env, [[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]], [0, 0], 0)
    if isinstance(c, CA.CircuitSymbol):
        return symbol(env, c.label, c.sym_args, c.cdim)
    if t == 'SeriesProduct':
        gs = [den(o, env) for o in c.operands]
        r = gs[0]
        for g in gs[1:]:
            r = series(env, r, g)
        return r
    if t == 'Concatenation':
        gs = [den(o, env) for o in c.operands]
        r = gs[0]
        for g in gs[1:]:
            r = concat(env, r, g)
        return r
    if t == 'Feedback':
        return feedback(env, den(c.operand, env), [(c.out_port, c.in_port)])
    if t == 'SeriesInverse':
        return inverse(env, den(c.operand, env))
    raise NoDen('circuit ' + t)


def close(env, a, b, tol=1e-6):
    """equal up to a real constant in H, and adding an overall cutoff corner"""
    if a.n != b.n:
        return 'channel dimensions %d and %d' % (a.n, b.n)
    a, b = join(env, a, b)
    k = N.corner_mask(env, a.spaces)
    c = np.ix_(k, k)
    for x, y, nm in [(a.S[i, j], b.S[i, j], 'S[%d,%d]' % (i, j)) for i in range(a.n) for j in range(a.n)] + \
            [(a.L[i], b.L[i], 'L[%d]' % i) for i in range(a.n)]:
        s = max(1.0, np.max(np.abs(x[c])), np.max(np.abs(y[c])))
        if np.max(np.abs(x[c] - y[c])) > tol * s:
            return '%s differs' % nm
    h = (a.H - b.H)[c]
    const = h[0, 0].real
    s = max(1.0, np.max(np.abs(a.H[c])))
    if np.max(np.abs(h - const * np.eye(h.shape[0]))) > tol * s:
        return 'H differs'
    return None


# -------------------------------------------------------------- pools

S = pool.NS
exec('''
CA1, CB1, CC1 = [CircuitSymbol(c, cdim=1) for c in "ABC"]
CA2, CB2, CC2 = [CircuitSymbol(c + "2", cdim=2) for c in "ABC"]
CA3, CB3 = [CircuitSymbol(c + "3", cdim=3) for c in "AB"]
th = symbols("theta", real=True)
BS = Beamsplitter(mixing_angle=th)
BS2 = Beamsplitter(label="BSb", mixing_angle=Rational(1, 3))
PH = PhaseCC(phase=x)
W = CoherentDriveCC(displacement=alpha)
_A, _B = OperatorSymbol("A", hs=q2), OperatorSymbol("B", hs=q3)
_Hq = LocalProjector(1, hs=q2)
SLH1 = SLH(Matrix([[sexp(I*x)]]), Matrix([[LocalSigma(0, 1, hs=q2)]]), x*_Hq)
SLH1b = SLH(Matrix([[1]]), Matrix([[_B]]), LocalProjector(0, hs=q3))
SLH2 = SLH(Matrix([[sympy.cos(th), -sympy.sin(th)], [sympy.sin(th), sympy.cos(th)]]), Matrix([[LocalSigma(0, 1, hs=q2)], [_B]]), LocalProjector(0, hs=q3))
SLH2b = SLH(identity_matrix(2), Matrix([[alpha*IdentityOperator], [LocalSigma(1, 0, hs=q3)*y]]), y*LocalProjector(1, hs=q2))
SLH3 = SLH(Matrix([[sympy.cos(th), 0, -sympy.sin(th)], [0, 1, 0], [sympy.sin(th), 0, sympy.cos(th)]]), Matrix([[LocalSigma(0, 1, hs=q2)], [_B], [beta*_A]]), ZeroOperator)
''', S)

SIZED = {0: ['CircuitZero'], 1: ['CIdentity', 'CA1', 'CB1', 'CC1', 'PH', 'W', 'SLH1', 'SLH1b'],
         2: ['CA2', 'CB2', 'CC2', 'BS', 'BS2', 'SLH2', 'SLH2b', 'CPermutation.create((1, 0))', 'circuit_identity(2)'],
         3: ['CA3', 'CB3', 'SLH3'] + ['CPermutation.create(%s)' % (p,) for p in [(1, 0, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 2, 1)]]}


def rnd(rng, n, depth=2):
    """(source of a circuit with n channels, ghost term): the ghost is the syntax tree the source asks for"""
    if n == 0:
        return 'CircuitZero', ('leaf', 'CircuitZero')
    r = rng.random()
    if depth == 0 or r < .3:
        if n in SIZED:
            s = rng.choice(SIZED[n])
            return s, ('leaf', s)
        p = list(range(n))
        rng.shuffle(p)
        s = 'CPermutation.create(%s)' % (tuple(p),)
        return s, ('perm', tuple(p))
    if r < .62:
        k = rng.choice([2, 2, 3])
        parts = [rnd(rng, n, depth - 1) for _ in range(k)]
        return 'SeriesProduct.create(%s)' % ', '.join(p[0] for p in parts), ('series', [p[1] for p in parts])
    if r < .85 and n >= 2:
        k = rng.randint(1, n - 1)
        parts = [rnd(rng, k, depth - 1), rnd(rng, n - k, depth - 1)]
        if rng.random() < .15:
            parts.insert(rng.randint(0, 2), ('CircuitZero', ('leaf', 'CircuitZero')))
        return 'Concatenation.create(%s)' % ', '.join(p[0] for p in parts), ('concat', [p[1] for p in parts])
    if r < .94 and n <= 3:
        p = rnd(rng, n + 1, depth - 1)
        o, i = rng.randint(0, n), rng.randint(0, n)
        return 'Feedback.create(%s, out_port=%d, in_port=%d)' % (p[0], o, i), ('fb', p[1], o, i)
    p = rnd(rng, n, depth - 1)
    return 'SeriesInverse.create(%s)' % p[0], ('inv', p[1])


def ghost(g, env):
    k = g[0]
    if k == 'leaf':
        return den(ev(g[1]), env)
    if k == 'perm':
        return perm(g[1])
    if k == 'series':
        gs = [ghost(x, env) for x in g[1]]
        r = gs[0]
        for x in gs[1:]:
            r = series(env, r, x)
        return r
    if k == 'concat':
        gs = [ghost(x, env) for x in g[1]]
        r = gs[0]
        for x in gs[1:]:
            r = concat(env, r, x)
        return r
    if k == 'fb':
        return feedback(env, ghost(g[1], env), [(g[2], g[3])])
    if k == 'inv':
        return inverse(env, ghost(g[1], env))


def gdim(g):
    k = g[0]
    if k == 'leaf':
        return ev(g[1]).cdim
    if k == 'perm':
        return len(g[1])
    if k == 'series':
        return gdim(g[1][0])
    if k == 'concat':
        return sum(gdim(x) for x in g[1])
    if k == 'fb':
        return gdim(g[1]) - 1
    return gdim(g[1])


def gspaces(g):
    k = g[0]
    if k == 'leaf':
        c = ev(g[1])
        return frozenset(c.space.local_factors) if isinstance(c, L.CA.SLH) else frozenset()
    if k == 'perm':
        return frozenset()
    if k in ('series', 'concat'):
        return frozenset().union(*[gspaces(x) for x in g[1]])
    return gspaces(g[1])


def _tuple(x):
    return tuple(_tuple(y) for y in x) if isinstance(x, (list, tuple)) else x


EXC = (L.EX.AlgebraError, L.EX.CannotConvertToSLH, L.EX.IncompatibleBlockStructures)


def chk_circuit(src, g, how, seed=0):
    """`how`: create | creduce | toSLH | expand ... of the constructed circuit, compared with its ghost"""
    env = N.Env(seed)
    g = _tuple(g)
    try:
        want = ghost(g, env)
    except NoDen as x:
        return ('skip', str(x))
    try:
        c = ev(src)
    except EXC as x:
        return ('skip', 'raises ' + type(x).__name__)
    except ValueError as x:
        if gdim(g) >= 1 and not ('fb' in str(g) and 'to apply a feedback' in str(x)):
            return ('bad', 'constructing a well-formed circuit raises %r' % x)
        return ('skip', 'no channels left')
    if c.cdim != gdim(g):
        return ('bad', 'cdim is %d, should be %d: %r' % (c.cdim, gdim(g), c))
    if how == 'creduce':
        c = c.creduce()
    elif how == 'toSLH':
        try:
            c = c.toSLH()
        except EXC as x:
            return ('skip', 'raises ' + type(x).__name__)
    elif how == 'toSLHexp':
        try:
            c = c.toSLH().expand().simplify_scalar()
        except EXC as x:
            return ('skip', 'raises ' + type(x).__name__)
    elif how == 'inverse':
        c = c.series_inverse().series_inverse()
    elif how == 'rebuild':
        c = c.rebuild()
    try:
        got = den(c, env)
    except NoDen as x:
        return ('skip', str(x))
    msg = close(env, got, want)
    if msg:
        return ('bad', 'the model of the result is not that of the parts: %s\nresult %r' % (msg, c))
    return None


def chk_book(src, g):
    """channel bookkeeping"""
    g = _tuple(g)
    try:
        c = ev(src)
    except EXC:
        return ('skip', 'raises')
    except ValueError as x:
        if gdim(g) >= 1 and not ('fb' in str(g) and 'to apply a feedback' in str(x)):
            return ('bad', 'constructing a well-formed circuit raises %r' % x)
        return ('skip', 'no channels left')
    n = gdim(g)
    if c.cdim != n:
        return ('bad', 'cdim %d instead of %d: %r' % (c.cdim, n, c))
    if c is L.CA.CircuitZero:
        return None
    bs = c.block_structure
    if sum(bs) != n or any(b < 1 for b in bs):
        return ('bad', 'block structure %s of a circuit with %d channels: %r' % (bs, n, c))
    blocks = c.get_blocks()
    if tuple(b.cdim for b in blocks) != tuple(bs):
        return ('bad', 'blocks %r do not have the dimensions %s' % (blocks, bs))
    pos = 0
    for bi, b in enumerate(bs):
        for k in range(b):
            if c.index_in_block(pos) != (k, bi):
                return ('bad', 'channel %d is %s of block %s, not %s' % (pos, k, bi, c.index_in_block(pos)))
            pos += 1
    for bad in (-1, n, n + 3):
        try:
            c.index_in_block(bad)
        except ValueError:
            continue
        return ('bad', 'channel %d of %d accepted' % (bad, n))
    # coarser structures
    env = N.Env(1)
    if len(bs) > 1:
        for cut in range(1, len(bs)):
            st = (sum(bs[:cut]), sum(bs[cut:]))
            bl = c.get_blocks(st)
            if tuple(b.cdim for b in bl) != st:
                return ('bad', 'get_blocks(%s) has dimensions %s' % (st, tuple(b.cdim for b in bl)))
            try:
                m = close(env, concat(env, *[den(b, env) for b in bl]), den(c, env))
            except NoDen:
                m = None
            if m:
                return ('bad', 'get_blocks(%s) does not concatenate to the circuit: %s' % (st, m))
    if any(b > 1 for b in bs):
        k = next(i for i, b in enumerate(bs) if b > 1)
        st = bs[:k] + (1, bs[k] - 1) + bs[k + 1:]
        try:
            c.get_blocks(st)
        except Exception:
            pass
        else:
            return ('bad', 'block structure %s accepted for %s' % (st, bs))
    sp = getattr(c, 'space', None)
    if sp is not None and not isinstance(c, L.CA.SLH):
        if not frozenset(sp.local_factors) <= gspaces(g):
            return ('bad', 'space %s' % sp)
        leaves = set()

        def walk(e):
            if isinstance(e, L.CA.SLH):
                leaves.update(e.space.local_factors)
            for a in getattr(e, 'operands', ()):
                walk(a)
        walk(c)
        if frozenset(sp.local_factors) != leaves:
            return ('bad', 'space %s, parts %s' % (sp, leaves))
    return None


def chk_mismatch(a, b):
    """series of circuits with different channel numbers is rejected"""
    A, B = ev(a), ev(b)
    if A.cdim == B.cdim:
        return ('skip', 'same')
    for f in (lambda: A << B, lambda: L.CA.SeriesProduct.create(A, B)):
        try:
            r = f()
        except Exception:
            continue
        return ('bad', 'series of %d and %d channels accepted: %r' % (A.cdim, B.cdim, r))
    return None


def chk_connect(comps, conns, how):
    env = N.Env(3)
    C = [ev(s) for s in comps]
    offs = [sum(c.cdim for c in C[:k]) for k in range(len(C))]
    conns = _tuple(conns)
    io = []
    for (c1, p1), (c2, p2) in conns:
        o = offs[c1] + (C[c1].PORTSOUT.index(p1) if isinstance(p1, str) else p1)
        i = offs[c2] + (C[c2].PORTSIN.index(p2) if isinstance(p2, str) else p2)
        io.append((o, i))
    r = den(C[0], env)
    for c in C[1:]:
        r = concat(env, r, den(c, env))
    grp = list(range(len(C)))
    for (c1, _), (c2, _) in conns:
        a, b = grp[c1], grp[c2]
        grp = [a if q == b else q for q in grp]
    for q in set(grp):
        if sum(C[k].cdim for k in range(len(C)) if grp[k] == q) == sum(1 for (c1, _), _ in conns if grp[c1] == q):
            return ('skip', 'a part of the network has no external channels')
    try:
        want = feedback(env, r, io) if io else r
    except NoDen as x:
        return ('skip', str(x))
    arg = [((c1 if how['idx'] else C[c1], p1), (c2 if how['idx'] else C[c2], p2)) for (c1, p1), (c2, p2) in conns]
    try:
        got = L.TCM.connect(C, arg, force_SLH=how['slh'], expand_simplify=how['es'])
    except EXC as x:
        return ('skip', 'raises ' + type(x).__name__)
    except ValueError as x:
        return ('bad', 'valid connection rejected: %s' % x) if want.n >= 1 and 'to apply a feedback' not in str(x) else ('skip', 'closed loop')
    if how['slh'] and not isinstance(got, L.CA.SLH):
        return ('bad', 'not an SLH')
    try:
        m = close(env, den(got, env), want)
    except NoDen as x:
        return ('skip', str(x))
    return ('bad', 'network differs: %s\n%r' % (m, got)) if m else None


def chk_connect_bad(comps, conn):
    C = [ev(s) for s in comps]
    (c1, p1), (c2, p2) = _tuple(conn)
    try:
        r = L.TCM.connect(C, [((c1, p1), (c2, p2))])
    except (ValueError, IndexError):
        return None
    return ('bad', 'invalid connection accepted: %r' % (r,))


def chk_map_channels(mapping, n):
    m = {int(k): v for k, v in dict(mapping).items()}
    c = L.CA.map_channels(m, n)
    free_in = [k for k in range(n) if k not in m]
    free_out = [k for k in range(n) if k not in m.values()]
    want = dict(m)
    want.update(zip(free_in, free_out))
    p = perm([want[k] for k in range(n)])
    env = N.Env(0)
    msg = close(env, den(c, env), p)
    return ('bad', 'map_channels(%s, %d) = %r' % (m, n, c)) if msg else None


def chk_extract(k, n):
    c = L.CA.extract_channel(k, n)
    p = list(range(k)) + [n - 1] + list(range(k, n - 1))
    env = N.Env(0)
    return ('bad', repr(c)) if close(env, den(c, env), perm(p)) else None


def chk_pad(src, k, n):
    """channels k..k+n-1 pass through"""
    c = ev(src)
    env = N.Env(0)
    g = den(c, env)
    N0 = g.n
    full = concat(env, g, ident(n))
    # channel order of `full`: N0 system channels then the n padded ones
    order = list(range(k)) + list(range(N0, N0 + n)) + list(range(k, N0))
    S_ = full.S[np.ix_(order, order)]
    want = Slh(full.n, full.spaces, S_, full.L[order], full.H)
    got = den(L.CA.pad_with_identity(c, k, n), env)
    m = close(env, got, want)
    return ('bad', 'padding: %s' % m) if m else None


def chk_coherent(src, amps):
    c = ev(src)
    a = [ev(s) for s in amps]
    env = N.Env(0)
    if len(a) != c.cdim:
        try:
            c.coherent_input(*a)
        except L.EX.WrongCDimError:
            return None
        return ('bad', '%d amplitudes accepted for %d channels' % (len(a), c.cdim))
    drive = None
    for x in a:
        d = of_ops(env, [[1]], [complex(N.den_scalar(x, env))], 0)
        drive = d if drive is None else concat(env, drive, d)
    want = series(env, den(c, env), drive)
    got = c.coherent_input(*a)
    m = close(env, den(got, env), want)
    return ('bad', 'coherent input: %s, %r' % (m, got)) if m else None


def chk_move_drive(Ss, Ls, alphas, H, which):
    env = N.Env(0)
    n = len(Ls)
    slh = L.CA.SLH(L.MA.Matrix([[ev(s) for s in r] for r in Ss]), L.MA.Matrix([[ev(l) + ev(a) * L.OA.IdentityOperator] for l, a in zip(Ls, alphas)]), ev(H))
    new = L.CA.move_drive_to_H(slh, which=which)
    al = [-complex(N.den_scalar(ev(a), env)) if (not which or k in which) else 0 for k, a in enumerate(alphas)]
    d = of_ops(env, [[1 if a == b else 0 for b in range(n)] for a in range(n)], al, 0)
    want = series(env, d, den(slh, env))
    m = close(env, den(new, env), want)
    return ('bad', 'move_drive_to_H: %s, %r' % (m, new)) if m else None


def _lind(env, H, Ls, rho):
    sp = N._join(H, rho, *Ls)
    e = lambda o: N.extend(env, o, sp)
    h, r, ls = e(H), e(rho), [e(x) for x in Ls]
    out = -1j * (h @ r - r @ h)
    for l in ls:
        ld = l.conj().T
        out = out + l @ r @ ld - (ld @ l @ r + r @ ld @ l) / 2
    return Op(sp, out)


def chk_master(slh, rho):
    env = N.Env(0)
    s = ev(slh)
    g = [N.den(l, env) for l in s.Ls]
    r = ev(rho)
    want = _lind(env, N.den(s.H, env), g, N.den(r, env))
    got = s.symbolic_master_equation(r)
    if not N.close(env, N.den(got, env), want):
        return ('bad', 'master equation %r' % got)
    lv = s.symbolic_liouvillian()
    try:
        v = N.den(L.SOA.SuperOperatorTimesOperator.create(lv, r), env)
    except NoDen as x:
        return ('skip', str(x))
    if not N.close(env, v, want):
        return ('bad', 'liouvillian %r' % lv)
    return None


def chk_heisenberg(slh, X):
    env = N.Env(0)
    s = ev(slh)
    X = ev(X)
    H, Ls, x = N.den(s.H, env), [N.den(l, env) for l in s.Ls], N.den(X, env)
    sp = N._join(H, x, *Ls)
    e = lambda o: N.extend(env, o, sp)
    h, xx = e(H), e(x)
    w = 1j * (h @ xx - xx @ h)
    for l in Ls:
        l = e(l)
        ld = l.conj().T
        w = w + ld @ xx @ l - (ld @ l @ xx + xx @ ld @ l) / 2
    got = s.symbolic_heisenberg_eom(X)
    if not N.close(env, N.den(got, env), Op(sp, w)):
        return ('bad', 'Heisenberg equation %r' % got)
    return None


def chk_noisy(slh, X):
    """the equation of motion with noise inputs b_i:
    ... + sum_i b_i^+ (S^+ [X, L])_i + sum_i ([L^+, X] S)_i b_i + sum_ij (S^+ X S - X)_ij b_i^+ b_j"""
    env = N.Env(0)
    s = ev(slh)
    X = ev(X)
    n = s.cdim
    bs = [L.OA.OperatorSymbol('b%d' % i, hs=ev('q1')) for i in range(n)]
    S, Ls = [[N.den(o, env) if isinstance(o, L.OA.Operator) else op_const(N.den(o, env)) for o in row] for row in s.S.matrix.tolist()], \
        [N.den(l, env) for l in s.Ls]
    S = [[o if isinstance(o, Op) else op_const(o) for o in row] for row in S]
    H, x, b = N.den(s.H, env), N.den(X, env), [N.den(o, env) for o in bs]
    sp = N._join(H, x, *(Ls + b + [o for row in S for o in row]))
    e = lambda o: N.extend(env, o, sp)
    h, xx, l, b, S = e(H), e(x), [e(o) for o in Ls], [e(o) for o in b], [[e(o) for o in row] for row in S]
    d = lambda m: m.conj().T
    w = 1j * (h @ xx - xx @ h)
    for i in range(n):
        w = w + d(l[i]) @ xx @ l[i] - (d(l[i]) @ l[i] @ xx + xx @ d(l[i]) @ l[i]) / 2
        for j in range(n):
            w = w + d(b[i]) @ d(S[j][i]) @ (xx @ l[j] - l[j] @ xx) + (d(l[j]) @ xx - xx @ d(l[j])) @ S[j][i] @ b[i]
            c = sum(d(S[k][i]) @ xx @ S[k][j] for k in range(n)) - (xx if i == j else 0)
            w = w + c @ d(b[i]) @ b[j]
    got = s.symbolic_heisenberg_eom(X, noises=[[o] for o in bs])
    if not N.close(env, N.den(got, env), Op(sp, w)):
        return ('bad', 'Heisenberg equation with noises %r' % got)
    return None


def chk_lindblad(H, Ls, rho):
    env = N.Env(0)
    h, ls, r = ev(H), [ev(l) for l in Ls], ev(rho)
    hv = N.den(h, env)
    hv = hv if isinstance(hv, Op) else op_const(hv)
    want = _lind(env, hv, [N.den(l, env) for l in ls], N.den(r, env))
    lv = L.SOA.liouvillian(h, ls)
    got = N.den(lv * r, env)
    if not N.close(env, got, want):
        return ('bad', 'liouvillian(%s, %s) = %r' % (H, Ls, lv))
    if len(ls) == 1:
        want = _lind(env, op_const(0), [N.den(ls[0], env)], N.den(r, env))
        if not N.close(env, N.den(L.SOA.lindblad(ls[0]) * r, env), want):
            return ('bad', 'lindblad(%s)' % Ls[0])
    return None


# -------------------------------------------------------------- generators

def circuit_cases(rng, n, hows=('create',), depth=2):
    for _ in range(n):
        src, g = rnd(rng, rng.choice([1, 2, 2, 3, 3, 4]), depth)
        yield dict(kind='check', check='circuit', args=[src, g, rng.choice(hows)])


def book_cases(rng, n):
    for _ in range(n):
        src, g = rnd(rng, rng.choice([1, 2, 3, 3, 4, 5]), rng.choice([1, 2, 2]))
        yield dict(kind='check', check='book', args=[src, g])


def mismatch_cases():
    for a in SIZED:
        for b in SIZED:
            if a != b:
                for x in SIZED[a][:3] + SIZED[a][-1:]:
                    for y in SIZED[b][:3] + SIZED[b][-1:]:
                        yield dict(kind='check', check='mismatch', args=[x, y])
    for x in ['CA1 + CB2', 'CB3 << CPermutation.create((1, 0, 2))', 'circuit_identity(3)']:
        for y in ['CA1', 'BS', 'circuit_identity(2)', 'CA2 << CB2', 'CA2 + BS', 'circuit_identity(4)']:
            yield dict(kind='check', check='mismatch', args=[x, y])
            yield dict(kind='check', check='mismatch', args=[y, x])


def connect_cases(rng, n):
    P = [('CA2', 2, None), ('CB2', 2, None), ('BS', 2, ('tr', 'in')), ('BS2', 2, ('rf', 'vac')), ('CA3', 3, None), ('CA1', 1, None),
         ('PH', 1, ('out', 'in')), ('SLH2', 2, None), ('W', 1, None), ('SLH1', 1, None)]
    for _ in range(n):
        comps = rng.sample(P, rng.choice([2, 3, 3, 4]))
        outs = [(k, p) for k, c in enumerate(comps) for p in range(c[1])]
        ins = list(outs)
        rng.shuffle(outs)
        rng.shuffle(ins)
        m = rng.randint(1, min(3, len(outs) - 1))
        conns = []
        for o, i in list(zip(outs, ins))[:m]:
            def nm(k, p, side):
                c = ev(comps[k][0])
                names = getattr(c, side, None)
                if names and rng.random() < .5:
                    return (k, names[p])
                return (k, p)
            conns.append((nm(o[0], o[1], 'PORTSOUT'), nm(i[0], i[1], 'PORTSIN')))
        allslh = all(not (c[0].startswith('C') and c[0] != 'CIdentity') for c in comps)
        yield dict(kind='check', check='connect', args=[[c[0] for c in comps], conns,
                                                        dict(idx=rng.random() < .5, slh=allslh and rng.random() < .5 and len(comps) < 4 and m < 3, es=rng.random() < .3 and m < 3)])
    for bad in [((0, 2), (1, 0)), ((0, 0), (1, 2)), ((-1, 0), (0, 0)), ((0, -1), (1, 0)), ((2, 0), (0, 0)), ((0, 0), (2, 0)), ((0, 'tr'), (1, 'in')),
                ((1, 'xx'), (0, 0)), ((1, 'tr'), (1, 'yy')), ((0, 0), (1, -1)), ((0, 0), (0, 'in'))]:
        yield dict(kind='check', check='connect_bad', args=[['CA2', 'BS'], bad])


def toolbox_cases(rng, n):
    for nn in range(2, 6):
        for k in range(nn):
            yield dict(kind='check', check='extract', args=[k, nn])
    for _ in range(n):
        nn = rng.randint(1, 6)
        m = rng.randint(1, nn)
        ks, vs = rng.sample(range(nn), m), rng.sample(range(nn), m)
        yield dict(kind='check', check='map_channels', args=[list(zip(ks, vs)), nn])
    for s, d in [('CA1', 1), ('CA2', 2), ('BS', 2), ('CA3', 3), ('CA1 + CB2', 3), ('SLH2', 2), ('CPermutation.create((2, 0, 1))', 3)]:
        for k in range(d + 1):
            for nn in (1, 2, 3):
                yield dict(kind='check', check='pad', args=[s, k, nn])
    for s, d in [('CA1', 1), ('CA2', 2), ('BS', 2), ('CA3', 3), ('SLH1', 1), ('SLH2', 2), ('CA1 + CB2', 3), ('SLH3', 3)]:
        for _ in range(4):
            yield dict(kind='check', check='coherent', args=[s, [rng.choice(['0', 'alpha', '2', '1j', 'beta', 'x']) for _ in range(d)]])
        yield dict(kind='check', check='coherent', args=[s, ['alpha'] * (d + 1)])
    Sx = {1: [[['1']], [['sexp(I*x)']]], 2: [[['1', '0'], ['0', '1']], [['sympy.cos(th)', '-sympy.sin(th)'], ['sympy.sin(th)', 'sympy.cos(th)']]]}
    ops = ['LocalSigma(0, 1, hs=q2)', '2*LocalSigma(1, 0, hs=q3)', 'y*OperatorSymbol("B", hs=q3)', 'LocalSigma(0, 1, hs=q2)*LocalSigma(1, 0, hs=q3)']
    for _ in range(max(10, n // 8)):
        d = rng.choice([1, 2])
        yield dict(kind='check', check='move_drive', args=[rng.choice(Sx[d]), rng.sample(ops, d), [rng.choice(['0', 'alpha', '2', '1j*x', 'beta']) for _ in range(d)],
                                                           'x*LocalProjector(1, hs=q2)', rng.choice([None, [0], [d - 1]])])


SLHS = ['SLH1', 'SLH1b', 'SLH2', 'SLH2b', 'SLH3', 'SLH2 << SLH2b', 'SLH1 + SLH1b', '(SLH2b << SLH2).feedback(out_port=0, in_port=1)']


def eom_cases():
    for s in SLHS:
        for r in ['OperatorSymbol("rho", hs=q2*q3)', 'LocalSigma(0, 1, hs=q2)', 'OperatorSymbol("X", hs=q3)']:
            yield dict(kind='check', check='master', args=[s, r])
            yield dict(kind='check', check='heisenberg', args=[s, r])
    p, q = 'LocalProjector(0, hs=q2)', 'LocalProjector(1, hs=q2)'
    for s in SLHS + ['SLH(Matrix([[I*%s + %s]]), Matrix([[LocalSigma(0, 1, hs=q2)]]), x*%s)' % (p, q, p),
                     'SLH(Matrix([[LocalSigma(0, 1, hs=q2) + I*LocalSigma(1, 0, hs=q2)]]), Matrix([[alpha*LocalSigma(0, 1, hs=q2) + beta]]), x*%s)' % p,
                     'SLH(Matrix([[%s, I*%s], [%s, %s]]), Matrix([[LocalSigma(0, 1, hs=q2)], [beta*_B]]), x*%s)' % (p, q, q, p, p),
                     'SLH(Matrix([[%s, LocalSigma(0, 1, hs=q2)], [LocalSigma(1, 0, hs=q2), %s]]), Matrix([[LocalSigma(0, 1, hs=q2)], [2]]), x*%s)' % (q, p, p)]:
        for r in ['LocalSigma(0, 1, hs=q2)', 'OperatorSymbol("X", hs=q2)', 'OperatorSymbol("X", hs=q3)']:
            yield dict(kind='check', check='noisy', args=[s, r])


def lindblad_cases(rng, n):
    ops = ['LocalSigma(0, 1, hs=q2)', 'LocalSigma("g", "e", hs=q1)', 'alpha*LocalSigma(1, 0, hs=q2)', 'OperatorSymbol("A", hs=q2)', 'OperatorSymbol("B", hs=q1)',
           'OperatorSymbol("A", hs=q2)*OperatorSymbol("B", hs=q1)', 'x*LocalProjector(1, hs=q2)']
    hs = ['x*LocalProjector(1, hs=q2)', 'ZeroOperator', 'LocalProjector("e", hs=q1)', 'OperatorSymbol("H", hs=q2)', 'alpha*OperatorSymbol("H", hs=q1*q2)']
    for _ in range(n):
        k = rng.choice([0, 1, 1, 2, 3])
        h = rng.choice(hs)
        yield dict(kind='check', check='lindblad', args=[h, rng.sample(ops, k), rng.choice(ops)])


def register(CHECKS):
    for k, v in list(globals().items()):
        if k.startswith('chk_'):
            CHECKS[k[4:]] = v
