"""Contracts of qnet/utils/permutations.py (C01), for permutations and block
structures of every length."""
import sys
from pyvc import live  # noqa: F401
import z3
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, veq, Loop, to_fl
from pyvc.engine import PyRaise
from pyvc.live import PERM as P
from pyvc.source import where

J, K = z3.Ints('j? k?')


def is_perm(p):
    """range and injectivity of an image tuple"""
    n = zi(p.n)
    g = lambda t: zi(p.get(t))
    return z3.And(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), z3.And(g(J) >= 0, g(J) < n))),
                  z3.ForAll([J, K], z3.Implies(z3.And(J >= 0, J < K, K < n), g(J) != g(K))))


def new_perm(D, name, n=None):
    """an arbitrary valid permutation; its inverse exists because an injection
    of a finite set into itself is a bijection"""
    p = D.intlist(name, n)
    inv = D.fresh_fn('inv_' + name, z3.IntSort(), z3.IntSort())
    n = zi(p.n)
    g = lambda t: zi(p.get(t))
    D.fact(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), z3.And(g(J) >= 0, g(J) < n, inv(g(J)) == J)), patterns=[g(J)]))
    D.fact(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), z3.And(inv(J) >= 0, inv(J) < n, g(inv(J)) == J)), patterns=[inv(J)]))
    p.inv = inv
    return p


def all_j(n, f):
    return z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(n)), f(J)))


# ---------------------------------------------------------------- contracts used by callers

def c_check(D, I, args, kw):
    p = to_fl(D.listlike(args[0]))
    return SBool(is_perm(p))


def c_invert(D, I, args, kw):
    p = to_fl(args[0])
    D.prove('precondition of invert_permutation: a permutation', is_perm(p))
    r = D.fresh_fn('invp', z3.IntSort(), z3.IntSort())
    n = zi(p.n)
    g = lambda t: zi(p.get(t))
    D.fact(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), z3.And(r(J) >= 0, r(J) < n, g(r(J)) == J)), patterns=[r(J)]))
    D.fact(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), z3.And(g(J) >= 0, g(J) < n, r(g(J)) == J))))
    return FL(n, lambda t: SInt(r(zi(t))), 'tuple')


# ---------------------------------------------------------------- tasks

def t_check(ctx):
    D, I = od.setup(ctx)
    p = D.intlist('p', kind='tuple')
    r = I.call_python(P.check_permutation, [p], {})
    f = r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))
    # lemma (the sorted list of a permutation is 0..n-1): s strictly increasing and inside [0, n)
    srt = getattr(D, 'last_sorted', None)
    if srt is not None:
        m = ctx.mark()
        ctx.assume(f)
        D.given('positions of the values', all_j(p.n, lambda j: zi(p.get(j)) == srt.perm[1](j)))
        D.prove('accepted lists are permutations', is_perm(p))
        ctx.undo(m)
    else:
        D.prove('accepted lists are permutations', z3.Implies(f, is_perm(p)))
    ctx.assume(is_perm(p))
    n = zi(p.n)
    srt = getattr(D, 'last_sorted', None)
    if srt is None:
        D.prove('permutations are accepted', f)
        return
    g = lambda t: zi(srt.get(t))
    pp, qq = srt.perm
    D.given('sorted list strictly increasing', z3.ForAll([J, K], z3.Implies(z3.And(J >= 0, J < K, K < n), g(J) < g(K))))
    D.induct('sorted elements at least their position', lambda k: z3.Implies(k < n, g(k) >= k), n)
    D.induct('sorted elements at most their position', lambda k: z3.Implies(z3.And(k < n), g(n - 1 - k) <= n - 1 - k), n)
    D.given('upper bound', all_j(n, lambda j: z3.Implies(n - 1 - j >= 0, g(n - 1 - (n - 1 - j)) <= j)))
    D.given('identity', all_j(n, lambda j: g(j) == j))
    D.prove('permutations are accepted', f)


def t_invert(ctx):
    D, I = od.setup(ctx)
    p = new_perm(D, 'p')
    r = to_fl(I.call_python(P.invert_permutation, [p], {}))
    n = zi(p.n)
    D.prove('result is a tuple', z3.BoolVal(r.kind == 'tuple'))
    D.prove('same length', zi(r.n) == n)
    D.prove('p(inverse(j)) = j', all_j(n, lambda j: z3.And(zi(r.get(j)) >= 0, zi(r.get(j)) < n, zi(p.get(zi(r.get(j)))) == j)))
    D.prove('inverse(p(j)) = j', all_j(n, lambda j: zi(r.get(zi(p.get(j)))) == j))


def _permute(fname, swap):
    f = getattr(P, fname)

    def t(ctx):
        D, I = od.setup(ctx, contracts={P.check_permutation: c_check})
        n1 = D.int('n1', 0)
        sort = od.VAL if not swap else None
        s = D.intlist('seq', n1, 'tuple' if ctx.choose(2, 'tuple/list') == 0 else 'list', sort=sort)
        p = D.intlist('p')
        if swap:                     # compose: both must be permutations
            s = new_perm(D, 'alpha')
            p = new_perm(D, 'p')
        try:
            r = I.call_python(f, [s, p], {})
        except PyRaise as e:
            if issubclass(e.exc_type, ValueError):
                D.prove('rejected only if the lengths differ or the second list is not a permutation',
                        z3.Not(z3.And(zi(s.n) == zi(p.n), is_perm(p))))
                return
            raise
        r = to_fl(r)
        D.prove('accepted only with equal lengths and a permutation', z3.And(zi(s.n) == zi(p.n), is_perm(p)))
        D.prove('length', zi(r.n) == zi(s.n))
        D.prove('type of the result', z3.BoolVal(r.kind == s.kind))
        D.prove('result(j) = sequence(permutation(j))', all_j(s.n, lambda j: veq(r.get(j), s.get(zi(p.get(j))))))
        if swap:
            D.prove('a permutation', is_perm(r))
    return t


def blocks(D, name):
    """a list of permutations"""
    ps = D.intlistlist(name, kind='list', inner='tuple')
    n = zi(ps.n)
    D.fact(z3.ForAll([K], z3.Implies(z3.And(K >= 0, K < n), is_perm2(ps.get(K)))))
    return ps


I2, J2 = z3.Ints('i2? j2?')


def is_perm2(p):
    n = zi(p.n)
    g = lambda t: zi(p.get(t))
    return z3.And(z3.ForAll([I2], z3.Implies(z3.And(I2 >= 0, I2 < n), z3.And(g(I2) >= 0, g(I2) < n))),
                  z3.ForAll([I2, J2], z3.Implies(z3.And(I2 >= 0, I2 < J2, J2 < n), g(I2) != g(J2))))


def _sizes(D, ps):
    """prefix sums of the lengths"""
    lens = FL(ps.n, lambda j: SInt(zi(ps.get(j).n)), 'list')
    return D.prefix(lens)[0]


def t_from_blocks(ctx):
    box = {}

    def inv(st):
        D, ps, off = st.D, box['ps'], box['off']
        new = to_fl(st['new_perm'])
        o = zi(st['offset'])
        return [('offset', o == off(st.k)),
                ('length', zi(new.n) == o),
                ('nonnegative', o >= 0),
                ('monotone', lambda K: z3.And(off(K) >= 0, off(K) + zi(ps.get(K).n) <= o)),
                ('blocks so far', lambda K: z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(ps.get(K).n)),
                                                                      zi(new.get(off(K) + J)) == off(K) + zi(ps.get(K).get(J)))))]
    D, I = od.setup(ctx, loops={(P.permutation_from_block_permutations, 0): Loop(inv, {'new_perm': lambda D, o: D.intlist('new', kind='list')})})
    ps = blocks(D, 'ps')
    box['ps'], box['off'] = ps, _sizes(D, ps)
    off = box['off']
    n = zi(ps.n)
    r = to_fl(I.call_python(P.permutation_from_block_permutations, [ps], {}))
    D.prove('length is the sum of the block sizes', zi(r.n) == off(n))
    D.prove('block k is the k-th permutation, shifted', z3.ForAll([K, J], z3.Implies(
        z3.And(K >= 0, K < n, J >= 0, J < zi(ps.get(K).n)), zi(r.get(off(K) + J)) == off(K) + zi(ps.get(K).get(J)))))


def t_concat(ctx):
    """concatenate_permutations(a, b), through the contract of permutation_from_block_permutations"""
    def c_blocks(D, I, args, kw):
        ps = [to_fl(x) for x in I.to_seq(args[0]).values()] if not isinstance(args[0], FL) else None
        if ps is None:
            raise od.Unsupported('unknown number of blocks')
        D.contract = True
        tot = z3.IntVal(0)
        f = D.fresh_fn('cat', z3.IntSort(), z3.IntSort())
        for p in ps:
            o, q = tot, p
            D.fact(all_j(q.n, lambda j, o=o, q=q: f(o + j) == o + zi(q.get(j))))
            tot = z3.simplify(tot + zi(q.n))
        return FL(tot, lambda j: SInt(f(zi(j))), 'tuple')
    D, I = od.setup(ctx, contracts={P.permutation_from_block_permutations: c_blocks})
    a, b = new_perm(D, 'a'), new_perm(D, 'b')
    r = to_fl(I.call_python(P.concatenate_permutations, [a, b], {}))
    n, m = zi(a.n), zi(b.n)
    D.given('length', zi(r.n) == n + m)
    D.given('first part', all_j(n, lambda j: zi(r.get(j)) == zi(a.get(j))))
    D.given('second part', all_j(m, lambda j: zi(r.get(n + j)) == n + zi(b.get(j))))
    D.given('second part by position', z3.ForAll([J], z3.Implies(z3.And(J >= n, J < n + m), zi(r.get(J)) == n + zi(b.get(J - n)))))
    D.prove('a permutation', is_perm(r))


def block_struct(D, name, n=None):
    bs = D.intlist(name, n, 'tuple')
    D.fact(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(bs.n)), zi(bs.get(J)) >= 1)))
    return bs


def t_full_block(ctx):
    box = {}

    def inv(st):
        D, bp, bs, off, img = st.D, box['bp'], box['bs'], box['off'], box['img']
        f = to_fl(st['fblockp'])
        return [('length', zi(f.n) == off(st.k)),
                ('nonnegative', off(st.k) >= 0),
                ('monotone', lambda K: z3.And(off(K) >= 0, off(K) + zi(bs.get(K)) <= off(st.k))),
                ('blocks so far', lambda K: z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(bs.get(K))),
                                                                      zi(f.get(off(K) + J)) == img(zi(bp.get(K))) + J)))]
    D, I = od.setup(ctx, loops={(P.full_block_perm, 0): Loop(inv, {'fblockp': lambda D, o: D.intlist('fb', kind='list')})},
                    contracts={P.invert_permutation: c_invert_known})
    bp = new_perm(D, 'bp')
    n = zi(bp.n)
    bs = block_struct(D, 'bs', n)
    D.known_inv = bp
    box.update(bp=bp, bs=bs, off=D.prefix(bs)[0], img=D.prefix(FL(n, lambda j: bs.get(bp.inv(zi(j))), 'list'))[0])
    off, img = box['off'], box['img']
    D.skip_asserts = True
    r = to_fl(I.call_python(P.full_block_perm, [bp, bs], {}))
    D.prove('length is the sum of the block sizes', zi(r.n) == off(n))
    D.prove('channel j of block k goes to channel j of its image block', z3.ForAll([K, J], z3.Implies(
        z3.And(K >= 0, K < n, J >= 0, J < zi(bs.get(K))), zi(r.get(off(K) + J)) == img(zi(bp.get(K))) + J)))


def c_invert_known(D, I, args, kw):
    p = args[0]
    D.prove('precondition of invert_permutation: a permutation', is_perm(to_fl(p)))
    if getattr(p, 'inv', None) is not None:
        return FL(p.n, lambda t: SInt(p.inv(zi(t))), 'tuple')
    return c_invert(D, I, args, kw)


def t_within(ctx):
    """block_perm_and_perms_within_blocks: the returned lists are permutations
    and order the block minima / the images inside each block"""
    box = {}

    def inv(st):
        D, bs, p, off = st.D, box['bs'], box['p'], box['off']
        w = to_fl(st['perms_within_blocks'])
        return [('one permutation per block', zi(w.n) == st.k),
                ('permutations', lambda K: z3.And(zi(w.get(K).n) == zi(bs.get(K)), is_perm2(w.get(K)))),
                ('they order the images', lambda K: z3.ForAll([I2, J2], z3.Implies(
                    z3.And(I2 >= 0, I2 < zi(bs.get(K)), J2 >= 0, J2 < zi(bs.get(K)),
                           zi(p.get(off(K) + I2)) < zi(p.get(off(K) + J2))), zi(w.get(K).get(I2)) < zi(w.get(K).get(J2)))))]
    shape = {'perms_within_blocks': lambda D, o: D.intlistlist('w', kind='list')}
    D, I = od.setup(ctx, loops={(P.block_perm_and_perms_within_blocks, 0): Loop(inv, shape)}, contracts={P.invert_permutation: c_invert})
    bs = block_struct(D, 'bs')
    n = zi(bs.n)
    D.fact(n >= 1)
    off = D.prefix(bs)[0]
    p = new_perm(D, 'p', off(n))
    D.induct('block offsets', lambda k: z3.And(off(k) >= 0, z3.Implies(k >= 1, z3.And(off(k) > off(k - 1)))), n)
    k0 = z3.Int('k0')
    ctx.assume(z3.And(k0 >= 0, k0 <= n))
    D.induct('offsets monotone', lambda k: z3.Implies(k >= k0, off(k) >= off(k0)), n)
    box.update(p=p, bs=bs, off=off)
    ctx.assume(z3.ForAll([J, K], z3.Implies(z3.And(J >= 0, J <= K, K <= n), off(J) <= off(K))))   # generalisation of k0
    r = I.call_python(P.block_perm_and_perms_within_blocks, [p, bs], {})
    bp, w = [to_fl(x) for x in I.to_seq(r).values()]
    D.prove('block permutation', z3.And(zi(bp.n) == n, is_perm(bp)))
    D.prove('one permutation per block', zi(w.n) == n)
    D.prove('permutations within the blocks', z3.ForAll([K], z3.Implies(
        z3.And(K >= 0, K < n), z3.And(zi(w.get(K).n) == zi(bs.get(K)), is_perm2(w.get(K))))))
    # ordering: i < j in the image  <=> within position
    D.prove('within-block permutations order the images', z3.ForAll([K, I2, J2], z3.Implies(
        z3.And(K >= 0, K < n, I2 >= 0, I2 < zi(bs.get(K)), J2 >= 0, J2 < zi(bs.get(K)),
               zi(p.get(off(K) + I2)) < zi(p.get(off(K) + J2))), zi(w.get(K).get(I2)) < zi(w.get(K).get(J2)))))


TASKS = [('check_permutation', P.check_permutation, t_check), ('invert_permutation', P.invert_permutation, t_invert),
         ('permute', P.permute, _permute('permute', False)), ('compose_permutations', P.compose_permutations, _permute('compose_permutations', True)),
         ('permutation_from_block_permutations', P.permutation_from_block_permutations, t_from_blocks),
         ('concatenate_permutations', P.concatenate_permutations, t_concat), ('full_block_perm', P.full_block_perm, t_full_block),
         ('block_perm_and_perms_within_blocks', P.block_perm_and_perms_within_blocks, t_within)]


def tasks():
    for nm, f, t in TASKS:
        yield nm, t, where(f)


if __name__ == '__main__':
    from pyvc.engine import run_task
    for nm, t, w in tasks():
        if len(sys.argv) > 1 and sys.argv[1] not in nm:
            continue
        r = run_task(nm, t, time_limit=120)
        print('%-45s %-10s %s  paths %d obl %d  %.1fs' % (nm, r.status, r.reason[:150], r.paths, len(r.obligations), r.secs))
        for o in r.failed()[:6]:
            print('   ', o.name, o.detail[:500], '|', o.path)
