"""C01: permutations, compared with permutation mathematics computed here from scratch."""
import itertools
import random

from pyvc import live as L
from .pool import ev

P = L.PERM


def isperm(p):
    try:
        return all(isinstance(x, int) for x in p) and len(set(p)) == len(p) and all(0 <= x < len(p) for x in p)
    except TypeError:
        return False


def comp(a, b):
    return tuple(a[x] for x in b)


def inv(p):
    r = [None] * len(p)
    for i, x in enumerate(p):
        r[x] = i
    return tuple(r)


def conc(*ps):
    out = []
    for p in ps:
        o = len(out)
        out += [x + o for x in p]
    return tuple(out)


def ext(bp, bs):
    """permutation of the channels that moves block k to block position bp[k]"""
    out = []
    for k, n in enumerate(bs):
        o = sum(bs[j] for j in range(len(bs)) if bp[j] < bp[k])
        out += range(o, o + n)
    return tuple(out)


def minimal_blocks(p):
    out, start, mx = [], 0, -1
    for i, x in enumerate(p):
        mx = max(mx, x)
        if mx == i:
            out.append(tuple(v - start for v in p[start:i + 1]))
            start = i + 1
    return out


def tup(x):
    return tuple(tup(y) if isinstance(y, (list, tuple)) else y for y in x)


def chk_perm1(p):
    """all functions of one permutation"""
    p = tup(p)
    if P.check_permutation(p) is not True or P.check_permutation(list(p)) is not True:
        return ('bad', 'check_permutation rejects a permutation')
    r = P.invert_permutation(p)
    if tup(r) != inv(p):
        return ('bad', 'inverse %r' % (r,))
    n = len(p)
    if n == 0:
        return None
    cs = P.permutation_to_disjoint_cycles(p)
    if sorted(x for c in cs for x in c) != list(range(n)):
        return ('bad', 'cycles %r do not partition' % (cs,))
    for c in cs:
        if any(p[c[i]] != c[(i + 1) % len(c)] for i in range(len(c))) or c[0] != min(c):
            return ('bad', 'cycles %r' % (cs,))
    if [c[0] for c in cs] != sorted(c[0] for c in cs):
        return ('bad', 'cycles not sorted %r' % (cs,))
    if tup(P.permutation_from_disjoint_cycles(cs)) != p:
        return ('bad', 'from cycles')
    for off in (1, 3):
        if tup(P.permutation_from_disjoint_cycles([[x + off for x in c] for c in cs[::-1]], off)) != p:
            return ('bad', 'from shifted cycles, offset %d' % off)
    bs = tup(P.permutation_to_block_permutations(p))
    if bs != tup(minimal_blocks(p)):
        return ('bad', 'block permutations %r' % (bs,))
    if tup(P.permutation_from_block_permutations(bs)) != p:
        return ('bad', 'from block permutations')
    return None


def chk_notperm(x):
    x = tup(x)
    if P.check_permutation(x) is not False:
        return ('bad', 'check_permutation accepts %r' % (x,))
    for f in (P.permutation_to_disjoint_cycles, P.permutation_to_block_permutations, lambda q: P.permute(tuple(range(len(q))), q),
              lambda q: L.CA.CPermutation.create(q)):
        try:
            r = f(x)
        except P.BadPermutationError:
            continue
        return ('bad', 'malformed permutation accepted: %r' % (r,))
    return None


def chk_perm2(a, b):
    a, b = tup(a), tup(b)
    if len(a) == len(b):
        r = P.compose_permutations(a, b)
        if tup(r) != comp(a, b):
            return ('bad', 'composition %r' % (r,))
        for s in (a, list(a), 'abcdefghijkl'[:len(a)]):
            r = P.permute(s, b)
            w = type(s)(s[x] for x in b) if not isinstance(s, str) else [s[x] for x in b]
            if list(r) != list(w):
                return ('bad', 'permute %r' % (r,))
        C = L.CA.CPermutation.create
        s = L.CA.SeriesProduct.create(C(a), C(b))
        w = comp(a, b)
        got = s.permutation if isinstance(s, L.CA.CPermutation) else tuple(range(len(a)))
        if tup(got) != w or s.cdim != len(a):
            return ('bad', 'series of permutations %r' % (s,))
        if isinstance(C(a), L.CA.CPermutation):
            q = C(a).series_inverse()
            if tup(q.permutation) != inv(a):
                return ('bad', 'series inverse %r' % q)
    else:
        try:
            r = P.permute(a, b)
        except ValueError:
            pass
        else:
            return ('bad', 'lengths differ: %r' % (r,))
    r = P.concatenate_permutations(a, b)
    if tup(r) != conc(a, b):
        return ('bad', 'concatenation %r' % (r,))
    if tup(P.permutation_from_block_permutations([a, b, a])) != conc(a, b, a):
        return ('bad', 'concatenation of three')
    s = L.CA.Concatenation.create(L.CA.CPermutation.create(a), L.CA.CPermutation.create(b))
    w = conc(a, b)
    got = s.permutation if isinstance(s, L.CA.CPermutation) else (tuple(range(len(w))) if s.__class__.__name__ == 'Concatenation' or w == tuple(range(len(w))) else None)
    if isinstance(s, L.CA.CPermutation) and tup(got) != w:
        return ('bad', 'circuit concatenation %r' % (s,))
    return None


def chk_blockperm(bp, bs, within):
    """p = ext(bp) o (+)within ; its decomposition must recover bp and within"""
    bp, bs, within = tup(bp), tup(bs), tup(within)
    f = P.full_block_perm(bp, bs)
    if tup(f) != ext(bp, bs):
        return ('bad', 'full_block_perm %r' % (f,))
    p = comp(ext(bp, bs), conc(*within))
    g, w = P.block_perm_and_perms_within_blocks(p, bs)
    if tup(g) != bp or tup(w) != within:
        return ('bad', 'decomposition of %r: %r %r' % (p, g, w))
    C = L.CA.CPermutation.create(p)
    rhs = [L.CA.CircuitSymbol('X%d' % k, cdim=n) for k, n in enumerate(bs)]
    if isinstance(C, L.CA.CPermutation) and len(bs) > 1:
        cc = L.CA.Concatenation.create(*rhs)
        a, b, c = C._factorize_for_rhs(cc)
        gp = lambda x: tup(x.permutation) if isinstance(x, L.CA.CPermutation) else tuple(range(x.cdim))
        if a != L.CA.circuit_identity(len(p)):
            return ('bad', 'residual permutation %r for a compatible block structure' % (a,))
        if gp(c) != ext(bp, bs):
            return ('bad', 'block permutation circuit %r' % (c,))
    return None


def chk_general(p, bs):
    """any permutation: the decomposition sorts blocks by least image and images inside blocks"""
    p, bs = tup(p), tup(bs)
    offs = [sum(bs[:k]) for k in range(len(bs))]
    ims = [p[o:o + n] for o, n in zip(offs, bs)]
    order = sorted(range(len(bs)), key=lambda k: min(ims[k]))
    g, w = P.block_perm_and_perms_within_blocks(p, bs)
    if tup(g) != inv(tuple(order)):
        return ('bad', 'block permutation %r' % (g,))
    if tup(w) != tuple(tuple(sorted(im).index(x) for x in im) for im in ims):
        return ('bad', 'inner permutations %r' % (w,))
    return None


def chk_blocks(p, bs):
    """CPermutation.get_blocks accepts exactly the compatible block structures"""
    p, bs = tup(p), tup(bs)
    C = L.CA.CPermutation.create(p)
    if not isinstance(C, L.CA.CPermutation):
        return ('skip', 'identity')
    mb = minimal_blocks(p)
    if C.block_structure != tuple(len(b) for b in mb):
        return ('bad', 'block structure %r' % (C.block_structure,))
    o, ok, want = 0, sum(bs) == len(p), []
    for n in bs:
        q = tuple(x - o for x in p[o:o + n])
        ok = ok and isperm(q)
        want.append(q)
        o += n
    try:
        r = C.get_blocks(bs)
    except Exception as x:
        if type(x) not in (Exception, L.EX.IncompatibleBlockStructures):
            raise
        return ('bad', 'compatible block structure %r rejected' % (bs,)) if ok else None
    if not ok:
        return ('bad', 'incompatible block structure %r accepted: %r' % (bs, r))
    gp = lambda x: tup(x.permutation) if isinstance(x, L.CA.CPermutation) else tuple(range(x.cdim))
    if [gp(x) for x in r] != want:
        return ('bad', 'blocks %r' % (r,))
    return None


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def case(name, *args):
    return dict(kind='check', check=name, args=[list(map(lambda x: list(x) if isinstance(x, tuple) else x, a)) if isinstance(a, tuple) else a for a in args])


def single_cases(nmax):
    for n in range(0, nmax + 1):
        for p in itertools.permutations(range(n)):
            yield case('perm1', p)


def bad_cases():
    for n in range(1, 5):
        for x in itertools.product(range(-1, n + 1), repeat=n):
            if not isperm(x):
                yield case('notperm', x)


def two_cases(rng, nmax, extra):
    for n in range(1, nmax + 1):
        for a in itertools.permutations(range(n)):
            for b in itertools.permutations(range(n)):
                yield case('perm2', a, b)
    for _ in range(extra):
        a = list(range(rng.randint(1, 8)))
        b = list(range(rng.randint(1, 8)))
        if rng.random() < .5:
            b = list(a)
        rng.shuffle(a)
        rng.shuffle(b)
        yield case('perm2', tuple(a), tuple(b))


def block_cases(rng, nmax, per):
    for n in range(1, nmax + 1):
        for bs in compositions(n):
            bps = list(itertools.permutations(range(len(bs))))
            for bp in (bps if len(bps) <= 24 else rng.sample(bps, 24)):
                for _ in range(per):
                    w = []
                    for k in bs:
                        q = list(range(k))
                        rng.shuffle(q)
                        w.append(tuple(q))
                    yield case('blockperm', bp, bs, tuple(w))


def general_cases(rng, nmax, count):
    for n in range(1, nmax + 1):
        cs = list(compositions(n))
        ps = list(itertools.permutations(range(n)))
        for p in (ps if n <= 5 else rng.sample(ps, count)):
            for bs in cs:
                yield case('general', p, bs)
                yield case('blocks', p, bs)
            if n > 1:
                yield case('blocks', p, rng.choice(list(compositions(n - 1))))


def chk_loop(p, out, inp):
    """feedback of output `out` of a channel permutation into its input `inp`"""
    CA = L.CA
    perm = lambda q: CA.circuit_identity(len(q)) if tuple(q) == tuple(range(len(q))) else CA.CPermutation(tuple(q))
    r = perm(p).feedback(out_port=out, in_port=inp)
    to = {k: x for k, x in enumerate(p) if k != inp}
    for k in to:
        if to[k] == out:
            to[k] = p[inp]      # through the loop
    want = perm([to[k] - (to[k] > out) for k in sorted(to)])
    if r != want:
        return ('bad', 'feedback %d -> %d of %r is %r, expected %r' % (out, inp, p, r, want))
    return None


def loop_cases(rng, count):
    for n in range(2, 8):
        ps = list(itertools.permutations(range(n)))
        for p in (ps if n <= 4 else rng.sample(ps, count)):
            for o in range(n):
                for i in range(n):
                    if p[i] != o:       # a channel fed back into itself has no defined model
                        yield case('loop', p, o, i)


def register(CHECKS):
    for k, v in list(globals().items()):
        if k.startswith('chk_'):
            CHECKS[k[4:]] = v
