"""C11 (Hilbert spaces as sets of local factors) and C25 (labels, indices, spin coefficients)."""
import itertools
import random

import numpy as np
import sympy

from pyvc import live as L
from . import den as N
from .pool import ev, NS

H = L.HSA
NS.update(eval('dict(h1=LocalSpace("h1"), h2=LocalSpace("h2", dimension=3), h3=LocalSpace("h3", basis=("a", "b"), order_index=2), '
               'h4=LocalSpace("h4", order_index=1, dimension=2), h5=SpinSpace("h5", spin=Rational(3, 2)), h6=LocalSpace("h1", dimension=2), '
               'h7=LocalSpace(7, local_identifiers={"Destroy": "b"}))', NS))
NS.update(eval('dict(w0=SpinSpace("w0", spin=Rational(1, 2)), w1=SpinSpace("w1", spin=1), w2=SpinSpace("w2", spin=(3, 2)), w3=SpinSpace("w3", spin=2), '
               'w4=SpinSpace("w4", spin=Rational(5, 2)), w5=SpinSpace("w5", spin="1/2", basis=("down", "up")), '
               'w6=SpinSpace("w6", spin=1, basis=("lo", "mid", "hi")))', NS))
LOC = ['h1', 'h2', 'h3', 'h4', 'h5', 'h7', 'q1', 'f1', 'h6']
ALL = 'ALL'


def sset(src):
    """reference set of a nested product: a nested tuple of names"""
    if isinstance(src, str):
        if src == 'TrivialSpace':
            return frozenset()
        if src == 'FullSpace':
            return ALL
        return frozenset([src])
    out = frozenset()
    for s in src[1]:
        v = sset(s)
        if v is ALL:
            return ALL
        out |= v
    return out


def build(src):
    if isinstance(src, str):
        return ev(src)
    how, parts = src
    ps = [build(p) for p in parts]
    if how == 'mul':
        r = ps[0]
        for p in ps[1:]:
            r = r * p
        return r
    if how == 'tensor':
        return ps[0].tensor(*ps[1:])
    return H.ProductSpace.create(*ps)


def denote(x):
    if x is H.FullSpace:
        return ALL
    if x is H.TrivialSpace:
        return frozenset()
    if isinstance(x, H.ProductSpace):
        fs = x.operands
        if len(fs) < 2 or len(set(fs)) != len(fs) or not all(isinstance(f, H.LocalSpace) for f in fs):
            raise ValueError('ill-formed product space %r' % (x,))
    else:
        fs = (x,)
    names = {ev(n): n for n in LOC}
    return frozenset(names[f] for f in fs)


def same(x, want, what):
    try:
        d = denote(x)
    except (ValueError, KeyError) as e:
        return ('bad', '%s is ill-formed: %s' % (what, e))
    if d != want:
        return ('bad', '%s is %s, expected %s' % (what, x, want if want is ALL else sorted(want)))
    return None


def le(a, b):
    return b is ALL or (a is not ALL and a <= b)


def chk_space1(s):
    x, w = build(s), sset(s)
    m = same(x, w, 'space')
    if m:
        return m
    if w is ALL:
        return None
    if len(x) != len(w) or set(x.local_factors) != {ev(n) for n in w}:
        return ('bad', 'local factors %r' % (x.local_factors,))
    # independent of order and nesting
    names = sorted(w)
    for perm in itertools.islice(itertools.permutations(names), 12):
        y = H.ProductSpace.create(*[ev(n) for n in perm])
        if y != x or hash(y) != hash(x) or tuple(y.local_factors) != tuple(x.local_factors):
            return ('bad', 'depends on the order: %r / %r' % (x, y))
        z = H.TrivialSpace
        for n in perm:
            z = ev(n) * z
        if z != x:
            return ('bad', 'depends on the nesting: %r / %r' % (x, z))
    keys = [f._order_key for f in x.local_factors]
    if any(keys[i + 1] < keys[i] for i in range(len(keys) - 1)):
        return ('bad', 'local factors not in order %r' % (x.local_factors,))
    # dimension and basis
    fs = list(x.local_factors)
    dims = [f._dimension for f in fs]
    try:
        d = x.dimension
        if None in dims:
            return ('bad', 'dimension %r of an infinite space' % d)
        if d != int(np.prod(dims, dtype=int)) or not x.has_basis:
            return ('bad', 'dimension %r' % d)
    except H.BasisNotSetError:
        if None not in dims:
            return ('bad', 'no dimension')
        if x.has_basis:
            return ('bad', 'has_basis')
        return None
    want = [','.join(t) for t in itertools.product(*[f.basis_labels for f in fs])] if fs else ['0']
    if list(x.basis_labels) != want:
        return ('bad', 'basis labels %r' % (x.basis_labels,))
    sts = list(x.basis_states)
    if len(sts) != len(want):
        return ('bad', 'number of basis states')
    env = N.Env(0)
    for k, st in enumerate(sts):
        if w:
            v = N.den(st, env)
            e = np.ones(1)
            lab = want[k].split(',')
            loc = {f: f.basis_labels.index(l) for f, l in zip(fs, lab)}
            for sp in v.spaces:
                u = np.zeros(env.dim(sp))
                u[loc[sp]] = 1
                e = np.kron(e, u)
            if not np.allclose(v.v, e):
                return ('bad', 'basis state %d is %s' % (k, st))
        if (not any(isinstance(f, L.SPA.SpinSpace) for f in ([x] if len(fs) == 1 else [])) and x.basis_state(k) != st) or x.basis_state(want[k]) != st:
            return ('bad', 'basis_state(%d) / basis_state(%r)' % (k, want[k]))
    for bad, exc in ((len(want), IndexError), (-1, IndexError), ('zz', KeyError), (','.join(['zz'] * max(1, len(fs))), KeyError)):
        if isinstance(x, L.SPA.SpinSpace) and isinstance(bad, int):
            continue
        try:
            r = x.basis_state(bad)
        except exc:
            continue
        return ('bad', 'basis_state(%r) is %s' % (bad, r))
    return None


def chk_space2(s, t):
    x, y, a, b = build(s), build(t), sset(s), sset(t)
    for what, f, want in (('x * y', lambda: x * y, ALL if ALL in (a, b) else a | b if True else 0),
                          ('x & y', lambda: x & y, b if a is ALL else a if b is ALL else a & b)):
        m = same(f(), want, what)
        if m:
            return m
    for what, f in (('x / y', lambda: x / y), ('x.remove(y)', lambda: x.remove(y))):
        if a is ALL:
            try:
                f()
            except L.EX.AlgebraError:
                continue
            return ('bad', 'removed from the full space')
        m = same(f(), frozenset() if b is ALL else a - b, what)
        if m:
            return m
    for what, got, want in (('==', x == y, a == b), ('<=', x <= y, le(a, b)), ('<', x < y, le(a, b) and a != b), ('>=', x >= y, le(b, a)),
                            ('>', x > y, le(b, a) and a != b), ('!=', x != y, a != b), ('factor', x.is_tensor_factor_of(y), le(a, b)),
                            ('strict factor', x.is_strict_tensor_factor_of(y), le(a, b) and a != b)):
        if bool(got) != want:
            return ('bad', 'x %s y is %r' % (what, got))
    if a == b and hash(x) != hash(y):
        return ('bad', 'equal spaces with different hashes')
    want = False if ALL in (a, b) else not (a & b)
    if x.isdisjoint(y) != want:
        return ('bad', 'isdisjoint is %r' % x.isdisjoint(y))
    return None


def rnd(rng, depth=2):
    if depth == 0 or rng.random() < .25:
        return rng.choice(LOC + LOC + ['TrivialSpace'])
    return [rng.choice(['mul', 'create', 'tensor']), [rnd(rng, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))]]


def case(name, *args):
    return dict(kind='check', check=name, args=list(args))


def space1_cases(rng, n):
    for a in LOC + ['TrivialSpace', 'FullSpace']:
        yield case('space1', a)
    for _ in range(n):
        yield case('space1', rnd(rng))


def space2_cases(rng, n):
    A = LOC + ['TrivialSpace', 'FullSpace', ['mul', ['h1', 'h2']], ['mul', ['h3', 'h2']], ['mul', ['h1', 'h2', 'h4']], ['mul', ['h4', 'h2']], ['mul', ['h2', 'FullSpace']]]
    for a in A:
        for b in A:
            yield case('space2', a, b)
    for _ in range(n):
        yield case('space2', rnd(rng), rnd(rng))


# ------------------------------------------------------------------ C25

SPINS = ['w0', 'w1', 'w2', 'w3', 'w4', 'w5', 'w6', 's1', 's2']
FIN = ['q1', 'q2', 'h2', 'h3', 'h4', 'h6']


def spin_label(m):
    m = sympy.sympify(m)
    return ('+' if m > 0 else '') + str(m)


def chk_spincoeff(hs):
    """ladder coefficients and the operators built from them"""
    S = ev(hs)
    s = S.spin
    d = int(2 * s) + 1
    if S.dimension != d or S.multiplicity != d or len(S.basis_labels) != d:
        return ('bad', 'dimension %r' % S.dimension)
    f = L.SPA
    env = N.Env(0)
    default = hs not in ('w5', 'w6')
    for k in range(d):
        m = k - s
        lab = S.basis_labels[k]
        if default and lab != spin_label(m):
            return ('bad', 'label of position %d is %r' % (k, lab))
        wants = [('Jz', f.Jzjmcoeff, m), ('J+', f.Jpjmcoeff, sympy.sqrt(s * (s + 1) - m * (m + 1))), ('J-', f.Jmjmcoeff, sympy.sqrt(s * (s + 1) - m * (m - 1)))]
        for nm, g, want in wants:
            for a, kw in ((lab, dict(shift=True)), (lab, dict(shift=False)), (k, dict(shift=True)), (m, dict(shift=False))):
                if sympy.simplify(g(S, a, **kw) - want) != 0:
                    return ('bad', '%s coefficient for %r %s is %s, expected %s' % (nm, a, kw, g(S, a, **kw), want))
            if s.is_integer and sympy.simplify(g(S, int(m), shift=False) - want) != 0:
                return ('bad', '%s coefficient for quantum number %s is %s' % (nm, m, g(S, int(m), shift=False)))
            i = NS['i']
            sy = g(S, i - s, shift=False)
            if sympy.simplify(sy.subs({i: k}) - want) != 0:
                return ('bad', '%s symbolic coefficient %s' % (nm, sy))
            sy = g(S, i, shift=True)
            if sympy.simplify(sy.subs({i: k}) - want) != 0:
                return ('bad', '%s coefficient of the symbolic position: %s' % (nm, sy))
    for bad in (d, -1):
        for nm, g in (('Jz', f.Jzjmcoeff), ('J+', f.Jpjmcoeff), ('J-', f.Jmjmcoeff)):
            try:
                r = g(S, bad, shift=True)
            except (AssertionError, ValueError, IndexError):
                continue
            return ('bad', '%s coefficient for the position %d outside the space is %s' % (nm, bad, r))
    # action on basis states and matrix elements
    B = [L.STA.BasisKet(l, hs=S) for l in S.basis_labels]
    for op, tgt, co in ((f.Jz(hs=S), 0, lambda m: m), (f.Jplus(hs=S), 1, lambda m: sympy.sqrt(s * (s + 1) - m * (m + 1))),
                        (f.Jminus(hs=S), -1, lambda m: sympy.sqrt(s * (s + 1) - m * (m - 1)))):
        for k in range(d):
            r = op * B[k]
            c = co(k - s)
            want = np.zeros(d, complex)
            if 0 <= k + tgt < d:
                want[k + tgt] = complex(c)
            v = N.den(r, env)
            got = np.zeros(d, complex) if v.spaces is None else v.v
            if not np.allclose(got, want):
                return ('bad', '%s on %s is %s' % (op, B[k], r))
            w = sum(abs(x) for x in want)
            if w < 1e-12 and r != L.STA.ZeroKet:
                return ('bad', '%s on %s is %s, not the zero state' % (op, B[k], r))
    return None


def chk_labels(hs):
    """positions, labels, next/previous labels"""
    S = ev(hs)
    spin = isinstance(S, L.SPA.SpinSpace)
    labels = S.basis_labels
    d = S.dimension
    if len(set(labels)) != d or S.has_basis is not True:
        return ('bad', 'labels %r' % (labels,))
    kets = []
    for k, l in enumerate(labels):
        b = L.STA.BasisKet(l, hs=S)
        if b.index != k or b.label != l or b.args[0] != l:
            return ('bad', 'BasisKet(%r) has index %r, label %r' % (l, b.index, b.label))
        if S._unpack_basis_label_or_index(l) != (l, k):
            return ('bad', 'unpacked %r' % (S._unpack_basis_label_or_index(l),))
        if not spin:
            c = L.STA.BasisKet(k, hs=S)
            if c != b or hash(c) != hash(b) or S._unpack_basis_label_or_index(k) != (l, k):
                return ('bad', 'BasisKet(%d) is %s' % (k, c))
            if L.OA.LocalSigma(k, 0, hs=S) != L.OA.LocalSigma(l, labels[0], hs=S):
                return ('bad', 'LocalSigma(%d, 0) differs from its labels' % k)
        sg = L.OA.LocalSigma(l, labels[0], hs=S)
        if (sg.index_j, sg.index_k) != (k, 0) or (sg.j, sg.k) != (l, labels[0]):
            return ('bad', 'LocalSigma(%r) positions %r' % (l, (sg.index_j, sg.index_k)))
        kets.append(b)
    for a in range(d):
        for b in range(d):
            if (kets[a] == kets[b]) != (a == b):
                return ('bad', 'basis states %s and %s' % (kets[a], kets[b]))
    for k in range(d):
        for n in range(-d - 1, d + 2):
            t = k + n
            for how, arg in (('label', labels[k]), ('index', k)):
                try:
                    r = S.next_basis_label_or_index(arg, n)
                except IndexError:
                    r = IndexError
                want = IndexError if not 0 <= t < d else (labels[t] if how == 'label' or spin else t)
                if r != want or type(r) != type(want):
                    return ('bad', 'next_basis_label_or_index(%r, %d) is %r, expected %r' % (arg, n, r, want))
            r = kets[k].next(n)
            if r != (kets[t] if 0 <= t < d else L.STA.ZeroKet):
                return ('bad', 'next(%d) of %s is %s' % (n, kets[k], r))
            r = kets[k].prev(n)
            t = k - n
            if r != (kets[t] if 0 <= t < d else L.STA.ZeroKet):
                return ('bad', 'prev(%d) of %s is %s' % (n, kets[k], r))
    for bad in (['zz'] if spin else ['zz', -1, d, d + 3]):
        try:
            r = L.STA.BasisKet(bad, hs=S)
        except ValueError:
            pass
        else:
            return ('bad', 'BasisKet(%r) accepted' % (bad,))
        try:
            r = L.OA.LocalSigma(labels[0], bad, hs=S)
        except ValueError:
            continue
        return ('bad', 'LocalSigma(., %r) accepted' % (bad,))
    return None


def chk_symlabels(hs, coef, off):
    """symbolic labels render to the label of the substituted value"""
    S = ev(hs)
    i, j = NS['i'], NS['j']
    I = L.IDX
    spin = isinstance(S, L.SPA.SpinSpace)
    fin = S._dimension is not None
    d = S.dimension if fin else 8
    e = coef * i + off
    kinds = []
    if not spin:
        kinds.append(('FockIndex', I.FockIndex(e), lambda v: v))
        if fin:
            kinds.append(('FockLabel', I.FockLabel(e, hs=S), lambda v: S.basis_labels[v]))
    else:
        kinds.append(('SpinIndex', I.SpinIndex(e - S.spin, hs=S), lambda v: S.basis_labels[v] if hs not in ('w5', 'w6') else spin_label(v - S.spin)))
    for nm, lab, f in kinds:
        for val in range(-2, d + 2):
            v = coef * val + off
            if not 0 <= v < d:
                if nm == 'FockLabel':
                    try:
                        r = lab.substitute({i: val})
                    except (IndexError, ValueError):
                        continue
                    return ('bad', '%s(%s).substitute(%d) outside the space is %r' % (nm, lab.expr, val, r))
                continue
            if lab.substitute({i: val}) != f(v):
                return ('bad', '%s(%s).substitute(%d) is %r' % (nm, lab.expr, val, lab.substitute({i: val})))
            if sympy.simplify(lab.fock_index.subs({i: val}) - v) != 0:
                return ('bad', 'fock_index of %s(%s) is %s' % (nm, lab.expr, lab.fock_index))
            if not (spin and hs in ('w5', 'w6')):
                K = L.STA.BasisKet(lab, hs=S)
                k2 = K.substitute({i: val})
                want = L.STA.BasisKet(S.basis_labels[v] if fin else v, hs=S)
                if k2 != want:
                    return ('bad', '%s substituted is %s' % (K, k2))
                sg = L.OA.LocalSigma(lab, lab, hs=S).substitute({i: val})
                if sg != L.OA.LocalSigma(S.basis_labels[v] if fin else v, S.basis_labels[v] if fin else v, hs=S):
                    return ('bad', 'LocalSigma substituted is %s' % sg)
        part = lab.substitute({i: j + 1})
        if type(part) is not type(lab) or getattr(part, 'hs', None) != getattr(lab, 'hs', None) or sympy.simplify(part.expr - lab.expr.subs({i: j + 1})) != 0:
            return ('bad', 'partial substitution gives %r' % (part,))
        for n in (-2, -1, 0, 1, 3):
            r = S.next_basis_label_or_index(lab, n)
            if type(r) is not type(lab) or getattr(r, 'hs', None) != getattr(lab, 'hs', None) or sympy.simplify(r.expr - lab.expr - n) != 0:
                return ('bad', 'next label %r' % (r,))
    return None


def chk_ranges(src, vals, limit=None):
    """iteration, length, membership and indicator function of an index range"""
    r = ev(src)
    it = r.iter()
    got = list(itertools.islice(it, limit)) if limit else list(it)
    s = r.index_symbol
    if [g[s] for g in got] != list(vals) or any(list(g) != [s] for g in got):
        return ('bad', 'iterates %r' % (got,))
    if not limit and len(r) != len(vals):
        return ('bad', 'length %r' % len(r))
    x = sympy.Symbol('x', integer=True)
    pw = r.piecewise_one(x)
    for v in range(-3, 9):
        inn = v in vals if not limit else v >= 0
        if (v in r) != inn:
            return ('bad', '%d in range is %r' % (v, v in r))
        p = pw.subs({x: v})
        if sympy.sympify(p) != (1 if inn else 0):
            return ('bad', 'piecewise_one at %d is %s' % (v, p))
    j = NS['m']
    q = r.substitute({s: j})
    if q.index_symbol != j or type(q) is not type(r) or [list(z.values()) for z in itertools.islice(q.iter(), 10)] != [list(z.values()) for z in itertools.islice(r.iter(), 10)]:
        return ('bad', 'substituted range %r' % (q,))
    if r.substitute({NS['x']: 1}) != r:
        return ('bad', 'substituting something else')
    return None


def chk_idxsym():
    I = L.IDX.IdxSym
    a = I('a')
    if not (I('a') == a and I('a', primed=1) != a and a.prime == I('a', primed=1) and a.prime.prime.primed == 2 and a.incr_primed(3).primed == 3):
        return ('bad', 'primes')
    if a.is_integer is not True or I('a', integer=False).is_integer is not False or I('a', positive=True).prime.is_positive is not True:
        return ('bad', 'assumptions')
    if len({a, a.prime, a.prime.prime, I('a')}) != 3:
        return ('bad', 'hash')
    for bad in (('1a', 0), ('a b', 0), ('', 0), ('a', -1)):
        try:
            I(bad[0], primed=bad[1])
        except (ValueError, TypeError):
            continue
        return ('bad', 'IdxSym(%r) accepted' % (bad,))
    return None


def label_cases():
    for h in SPINS:
        yield case('spincoeff', h)
    for h in SPINS + FIN:
        yield case('labels', h)
    for h in SPINS + FIN + ['f1', 'h1']:
        for c in (1, 2, -1, 3):
            for o in (0, 1, -1, 2):
                yield case('symlabels', h, c, o)
    yield case('ranges', 'IndexOverFockSpace(i, hs=h2)', [0, 1, 2])
    yield case('ranges', 'IndexOverFockSpace(i, hs=q1)', [0, 1])
    yield case('ranges', 'IndexOverFockSpace(i, hs=w2)', [0, 1, 2, 3])
    yield case('ranges', 'IndexOverFockSpace(i, hs=f1)', list(range(7)), 7)
    for a, b, s in itertools.product(range(-2, 5), range(-2, 5), (1, 2, 3, -1, -2)):
        vals = list(range(a, b + 1, s)) if s > 0 else list(range(a, b - 1, s))
        yield case('ranges', 'IndexOverRange(i, %d, %d, %d)' % (a, b, s), vals)
    for v in ([], [0], [1, 4], [3, 1, 2], [-2, 8]):
        yield case('ranges', 'IndexOverList(i, %r)' % (v,), v)
    yield case('idxsym')


def register(CHECKS):
    for k, v in list(globals().items()):
        if k.startswith('chk_'):
            CHECKS[k[4:]] = v
