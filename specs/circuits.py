"""Contracts of the circuit algebra (C02, C03, C24).

A circuit is described by its wiring: a circuit with n channels maps every
output channel to the source of its signal -- an external input or an output
port of one of the (opaque) component circuits -- and every input port of a
component to the source of its signal.  Series, concatenation, permutation and
feedback are operations on wirings.  Two circuits with the same wiring have the
same (S, L, H) model: that is the Gough-James network theorem, which is trusted
here (the SLH level is the subject of C04).

A reducible circuit is a concatenation of blocks; a contiguous group of blocks
is the part of its component that owns the ports of these blocks."""
import sys
from pyvc import live  # noqa: F401
import functools
import types
import z3
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, Loop, to_fl, vsub, _clash
from pyvc.engine import PyRaise, BoundMethod, Sym, Unsupported, Infeasible, IFunc, SDict
from pyvc.live import CA, RULES, PERM as P, EX
from pyvc.source import where, unwrap
from specs import perms as SP

J, K = z3.Ints('j? k?')
IV = z3.IntVal
EXT = IV(-1)
LOOPSRC = (IV(-2), IV(0))          # the signal of a line that only feeds itself


def inp(j):
    return (EXT, zi(j))


def If(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def pick(c, a, b):
    return (If(c, a[0], b[0]), If(c, a[1], b[1]))


def bind(src, f):
    """replace external inputs"""
    F, j = src
    F = z3.simplify(F)
    if F.eq(EXT):
        return f(j)
    if z3.is_int_value(F):
        return src
    return pick(F == EXT, f(j), (F, j))


def fsub(f, pairs):
    def g(j):
        t = z3.Int('fs!')
        v = f(t)
        if isinstance(v, tuple):
            return tuple(z3.substitute(z3.substitute(x, *pairs), (t, zi(j))) for x in v)
        return z3.substitute(z3.substitute(v, *pairs), (t, zi(j)))
    return g


class Circ(Sym):
    def __init__(self, cls, n, out, nodes=None, fwd=None, tree=None, **kw):
        self.cls, self.n, self.out, self.nodes, self.fwd = cls, z3.simplify(zi(n)), out, dict(nodes or {}), fwd
        self.tree = tree
        self.isc = {}
        self.perm = self.ops = self.operand = self.ports = self.struct = self.base = None
        self.fields = {}
        self.idx = self.opidx = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return 'Circ(%s, %s)' % (self.cls and self.cls.__name__, self.n)

    def vsub(self, pairs):
        nodes = {k: (f, fsub(p, pairs), fsub(i, pairs)) for k, (f, p, i) in self.nodes.items()}
        r = Circ(self.cls, z3.substitute(self.n, *pairs), fsub(self.out, pairs), nodes, fsub(self.fwd, pairs) if self.fwd else None)
        r.isc = dict(self.isc)
        if self.tree is not None and self.tree[0] in ('elem', 'einv'):
            r.tree = self.tree[:2] + (z3.substitute(self.tree[2], *pairs),)
        elif self.tree is not None:
            r.tree = ('sub', self.tree, pairs)
        if self.perm is not None:
            r.perm = vsub(self.perm, pairs)
        return r


def as_(c, cls):
    r = Circ(cls, c.n, c.out, c.nodes, c.fwd, c.tree)
    r.struct, r.base = c.struct, c.base
    return r


def shift(src, d):
    return bind(src, lambda j: inp(z3.simplify(j + d)))


def union(a, b):
    out = dict(a)
    for k, (f, p, i) in b.items():
        if k in out:
            _, p0, i0 = out[k]
            out[k] = (f, (lambda j, p0=p0, p=p: z3.Or(p0(j), p(j))),
                      (lambda j, p0=p0, i0=i0, i=i: pick(p0(j), i0(j), i(j))))
        else:
            out[k] = (f, p, i)
    return out


def mapin(nodes, f):
    return {k: (F, p, (lambda j, i=i: bind(i(j), f))) for k, (F, p, i) in nodes.items()}


def ser(D, A, B, given=False, cls=None):
    if not z3.simplify(A.n == B.n).eq(z3.BoolVal(True)):
        if given:
            D.fact(A.n == B.n)
        else:
            D.given('series product of circuits with the same number of channels', A.n == B.n)
    sub = lambda j: B.out(j)
    fwd = (lambda j: A.fwd(B.fwd(j))) if A.fwd and B.fwd else None
    return Circ(cls, A.n, lambda j: bind(A.out(j), sub), union(B.nodes, mapin(A.nodes, sub)), fwd, ('ser', A, B))


def cat(D, A, B, cls=None):
    n = A.n
    fwd = (lambda j: If(zi(j) < n, A.fwd(j), n + B.fwd(zi(j) - n))) if A.fwd and B.fwd else None
    return Circ(cls, A.n + B.n, lambda j: pick(zi(j) < n, A.out(j), shift(B.out(z3.simplify(zi(j) - n)), n)),
                union(A.nodes, mapin(B.nodes, lambda j: inp(z3.simplify(j + n)))), fwd, ('cat', A, B))


def fb(D, A, o, i, given=False, cls=None):
    o, i = zi(o), zi(i)
    pre = z3.And(A.n > 1, o >= 0, o < A.n, i >= 0, i < A.n)
    if given:
        D.fact(pre)
    else:
        D.given('feedback ports of the circuit', pre)
    w = A.out(o)
    if given:                       # well-posed: the fed-back line is not a closed loop by itself
        D.fact(z3.Not(z3.And(w[0] == EXT, w[1] == i)))
    drop = lambda j: inp(z3.simplify(If(j > i, j - 1, j)))
    w1 = bind(w, lambda j: pick(j == i, LOOPSRC, drop(j)))
    sub = lambda j: pick(j == i, w1, drop(j))
    return Circ(cls, A.n - 1, lambda j: bind(A.out(z3.simplify(If(zi(j) >= o, zi(j) + 1, zi(j)))), sub), mapin(A.nodes, sub),
                None, ('fb', A, o, i))


def ident(n, cls=None):
    return Circ(cls, n, lambda j: inp(j), {}, lambda j: zi(j), ('id', zi(n)))


def perm_circ(D, p, cls=None, inv=None):
    """channel permutation: input j leaves at output p(j)"""
    inv = inv or getattr(p, 'inv', None)
    n = zi(p.n)
    g = lambda t: zi(p.get(t))
    b = p.base[0] if p.base else None
    if inv is None and b is not None and getattr(b, 'inv', None) and p.base[1].eq(IV(0)):
        j = z3.Int(D.ctx.fresh('j'))
        m = D.ctx.mark()
        D.ctx.assume(z3.And(j >= 0, j < n))
        if D.entails_hard(z3.And(b.inv(j) >= 0, b.inv(j) < n, g(b.inv(j)) == j)):
            inv = b.inv
        D.ctx.undo(m)
    if inv is None:
        inv = D.fresh_fn('pinv', z3.IntSort(), z3.IntSort())
        D.fact(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), z3.And(inv(J) >= 0, inv(J) < n, g(inv(J)) == J)), patterns=[inv(J)]))
        D.fact(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), z3.And(g(J) >= 0, g(J) < n, inv(g(J)) == J))))
    return Circ(cls, n, lambda j: inp(inv(zi(j))), {}, g, ('perm', p, inv), perm=p)


def inverse(D, X):
    """the circuit whose series product with X is the identity: the Gough-James
    inverse reverses series, acts on the parts of a concatenation and swaps the
    ports of a feedback"""
    t = X.tree
    if t is None:
        raise Unsupported('inverse of an unknown structure')
    k = t[0]
    if k == 'id':
        return X
    if k == 'perm':
        p, inv = t[1], t[2]
        q = FL(p.n, lambda j: SInt(inv(zi(j))), 'tuple')
        return perm_circ(D, q, None, lambda j: zi(p.get(j)))
    if k == 'ser':
        return ser(D, inverse(D, t[2]), inverse(D, t[1]))
    if k == 'cat':
        return cat(D, inverse(D, t[1]), inverse(D, t[2]))
    if k == 'fb':
        return fb(D, inverse(D, t[1]), t[3], t[2])
    if k == 'seg':
        return seg(D, D.inv_of(t[1]), t[2], t[3])
    if k in ('elem', 'einv'):
        F = z3.Function(D.ctx.fresh('ifam'), z3.IntSort(), z3.IntSort())(t[2])
        return Circ(None, X.n, lambda j: (F, zi(j)), {('inverse',) + t[1].key: (F, lambda j: z3.And(zi(j) >= 0, zi(j) < X.n), lambda j: inp(zi(j)))},
                    None, ('einv' if k == 'elem' else 'elem',) + t[1:])
    if k == 'sub':
        return inverse_sub(D, t)
    if k == 'catfl':
        return cat_fl(D, FL(t[1].n, lambda i: inverse(D, D.circ(t[1].get(i))), 'list', None, None), own=t[2])
    raise Unsupported('inverse of %s' % k)


def inverse_sub(D, t):
    inner = Circ(None, IV(0), lambda j: inp(j), {}, None, t[1])
    if t[1][0] == 'perm':
        p = vsub(t[1][1], t[2])
        inv = fsub(t[1][2], t[2])
        q = FL(p.n, lambda j: SInt(inv(zi(j))), 'tuple')
        return perm_circ(D, q, None, lambda j: zi(p.get(j)))
    raise Unsupported('inverse of an element')


class Base:
    """an opaque component"""

    def __init__(self, key, fam, n, struct):
        self.key, self.fam, self.n, self.struct = key, fam, n, struct


def seg(D, b, lo, hi, cls=None):
    lo, hi = z3.simplify(zi(lo)), z3.simplify(zi(hi))
    if b.key[0] == 'perm':
        p, inv = b.perm
        c = Circ(cls, hi - lo, lambda j: inp(inv(zi(j) + lo) - lo), {}, lambda j: zi(p.get(zi(j) + lo)) - lo, ('seg', b, lo, hi))
        return c
    return Circ(cls, hi - lo, lambda j: (b.fam, z3.simplify(lo + zi(j))),
                {b.key: (b.fam, lambda j: z3.And(zi(j) >= lo, zi(j) < hi), lambda j: inp(z3.simplify(zi(j) - lo)))}, None, ('seg', b, lo, hi))


def owner_default(D, ps):
    return D.blk[ps] if ps in D.blk else None


def cat_fl(D, fl, cls=None, own=None):
    """concatenation of a list of circuits of unknown length"""
    m = fl.meta
    base = fl
    o = IV(0)
    if fl.base:
        base, o = fl.base
        m = base.meta
    if m and m[0] == 'segs':
        _, b, off = m
        return seg(D, b, off(o), off(z3.simplify(o + zi(fl.n))), cls)
    if m and m[0] == 'parts':
        r = None
        if fl.base:
            raise Unsupported('slice of a composed list of circuits')
        for x in m[1]:
            c = cat_fl(D, x) if isinstance(x, FL) else D.circ(x)
            r = c if r is None else cat(D, r, c)
        return r if r is not None else ident(0)
    sizes = FL(base.n, lambda j: SInt(D.circ(base.get(zi(j))).n), 'list')
    part = D.known_partition(sizes) or D.partition(sizes)
    lo = z3.simplify(part.off(o))
    n = z3.simplify(part.off(z3.simplify(o + zi(fl.n))) - lo)
    el = lambda k: D.circ(base.get(k))

    def out(j):
        k = part.blk(lo + zi(j))
        return shift(el(k).out(lo + zi(j) - part.off(k)), part.off(k) - lo)
    k0 = z3.Int(D.ctx.fresh('ke'))
    nodes = {}
    for key, (F, p0, i0) in el(k0).nodes.items():
        cands = [own] if own is not None else list(D.owners)
        j0 = z3.Int(D.ctx.fresh('je'))
        good = None
        for f in cands:
            m_ = D.ctx.mark()
            D.ctx.assume(z3.And(k0 >= 0, k0 < zi(base.n), p0(j0)))
            ok = D.entails_hard(f(j0) == k0)
            D.ctx.undo(m_)
            if ok:
                good = f
                break
        if good is None:
            raise Unsupported('no owner function for the parts of a list of circuits')

        def pres(j, key=key, f=good):
            k = f(zi(j))
            return z3.And(k >= o, k < o + zi(fl.n), el(k).nodes[key][1](zi(j)))

        def inn(j, key=key, f=good):
            k = f(zi(j))
            return shift(el(k).nodes[key][2](zi(j)), part.off(k) - lo)
        nodes[key] = (F, pres, inn)
    fwd = None
    if el(k0).fwd is not None:
        def fwd(j):
            k = part.blk(lo + zi(j))
            return part.off(k) - lo + el(k).fwd(lo + zi(j) - part.off(k))
    return Circ(cls, n, out, nodes, fwd, ('catfl', fl, own))


def ser_elements(D, x):
    """the product of a list computed element by element from the factors of a product"""
    k = z3.Int(D.ctx.fresh('ks'))
    t = D.circ(x.get(k)).tree
    if t and t[0] in ('elem', 'einv'):
        L = t[1]
        i = z3.simplify(t[2])
        if D.entails(z3.And(zi(x.n) == L.m, z3.ForAll([k], i == (k if t[0] == 'elem' else L.m - 1 - k)))):
            return L.whole if t[0] == 'elem' else inverse(D, L.whole)
    raise Unsupported('series of a list of circuits')


def ser_fl(D, args, given=False):
    r = None
    for x in args:
        if isinstance(x, FL):
            m = x.meta
            if x.base is not None:
                raise Unsupported('series of a list of circuits')
            if m is None:
                c = ser_elements(D, x)
            elif m[0] == 'series':
                c = m[1]
            elif m[0] == 'parts':
                c = ser_fl(D, m[1], given)
            else:
                raise Unsupported('series of blocks')
        else:
            c = D.circ(x)
        r = c if r is None else ser(D, r, c, given)
    if r is None:
        return ident(1)
    return r


class Part:
    def __init__(self, off, blk, n):
        self.off_, self.blk, self.n = off, blk, n

    def off(self, k):
        k = z3.simplify(zi(k))
        return IV(0) if k.eq(IV(0)) else self.off_(k)


class CDomain(od.ODomain):
    timeout = 20000

    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.nfam = 0
        ctx.base_timeout = 1000
        ctx.solver.set('timeout', 1000)
        self.parts = {}
        self.invs = {}
        self.transp = []
        self.owners = []
        self.under = None         # method executed from source although a contract exists
        for c in (CA.SeriesProduct, CA.Concatenation, CA.Feedback, CA.SeriesInverse, CA.CPermutation):
            self.classes[c] = self.maker(c)
        self.contracts[unwrap(CA.circuit_identity)] = lambda D, I, a, kw: ident(z3.If(zi(a[0]) > 0, zi(a[0]), 0))
        self.contracts[unwrap(CA.map_channels)] = c_map_channels
        self.contracts[unwrap(P.check_permutation)] = SP.c_check
        self.contracts[unwrap(P.invert_permutation)] = c_invert
        self.contracts[unwrap(P.concatenate_permutations)] = c_concat
        self.contracts[unwrap(P.block_perm_and_perms_within_blocks)] = c_within
        self.contracts[unwrap(P.full_block_perm)] = c_full_block
        self.contracts[unwrap(RULES._get_common_block_structure)] = c_common

    # ---------------------------------------------------------------- values
    def entails_hard(self, f):
        s = self.ctx.solver
        s.push()
        s.set('timeout', 8000)
        s.add(z3.Not(f))
        r = s.check()
        s.pop()
        s.set('timeout', self.ctx.base_timeout)
        return r == z3.unsat

    def partition(self, sizes):
        if sizes.base is not None and not (sizes.base[0] is sizes):
            b, o = sizes.base
            p = self.partition(b)
            return Part(lambda k: z3.simplify(p.off(o + k) - p.off(o)), lambda j: p.blk(p.off(o) + j) - o, zi(sizes.n))
        return self.partition0(sizes)

    def partition0(self, sizes):
        ps, o = self.prefix(sizes)
        key = ps(z3.Int('pt!')).sexpr()
        if key not in self.parts:
            n = zi(sizes.n)
            k, k2, j = z3.Ints('k! k2! j!')
            self.fact(z3.ForAll([k, k2], z3.Implies(z3.And(k >= 0, k <= k2, k2 <= n), z3.And(ps(k) >= 0, ps(k) <= ps(k2))),
                                patterns=[z3.MultiPattern(ps(k), ps(k2))]))
            if not self.generic:
                kk = z3.Int(self.ctx.fresh('kk'))
                m = self.ctx.mark()
                self.ctx.assume(z3.And(kk >= 0, kk < n))
                self.prove('sizes are not negative', zi(sizes.get(kk)) >= 0)
                self.ctx.undo(m)
            blk = self.fresh_fn('blk', z3.IntSort(), z3.IntSort())
            self.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ps(n)),
                                                z3.And(blk(j) >= 0, blk(j) < n, ps(blk(j)) <= j, j < ps(blk(j) + 1))), patterns=[blk(j)]))
            self.fact(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < n, ps(k) <= j, j < ps(k + 1)), blk(j) == k),
                                patterns=[z3.MultiPattern(ps(k), blk(j))]))
            self.parts[key] = Part(ps, blk, n)
            self.owners.append(blk)
            self.ctx.trail.append(lambda: self.parts.pop(key, None))
            self.ctx.trail.append(lambda: self.owners.remove(blk))
        return self.parts[key]

    def known_partition(self, sizes):
        """sizes that are differences of known offsets"""
        k = z3.Int('kp!')
        e = z3.simplify(zi(sizes.get(k)))
        if e.eq(IV(1)):
            return Part(lambda k: zi(k), lambda j: zi(j), zi(sizes.n))
        for p in self.parts.values():
            if z3.simplify(e - (p.off(k + 1) - p.off(k))).eq(IV(0)):
                return p
        return None

    def new_base(self, name, n, struct):
        self.nfam += 1
        return Base((name, self.nfam), IV(self.nfam), n, struct)

    def inv_of(self, b):
        if b.key[0] == 'perm':
            raise Unsupported('inverse of a block of a permutation')
        if b.key not in self.invs:
            i = self.new_base('inv ' + b.key[0], b.n, b.struct)
            self.invs[b.key] = i
            self.invs[i.key] = b
        return self.invs[b.key]

    def struct_of(self, name, n):
        bs = SP.block_struct(self, 'bs_' + name)
        self.fact(zi(bs.n) >= 1)
        part = self.partition(bs)
        self.fact(part.off(zi(bs.n)) == zi(n))
        return bs

    def new_circ(self, name, cls=None, n=None):
        n = zi(n) if n is not None else self.fresh('n_' + name)
        self.fact(n >= 1)
        if cls is CA.CPermutation:
            p = SP.new_perm(self, 'p_' + name, n)
            return perm_circ(self, p, cls)
        bs = self.struct_of(name, n)
        b = self.new_base(name, n, bs)
        c = seg(self, b, 0, n, cls)
        c.struct, c.base = bs, b
        if cls is CA.Concatenation:
            os_ = SP.block_struct(self, 'ops_' + name)
            self.fact(zi(os_.n) >= 2)
            part = self.partition(os_)
            self.fact(part.off(zi(os_.n)) == n)
            c.ops = self.seg_list(b, os_)
            cb = self.fresh_fn('cb', z3.IntSort(), z3.IntSort())    # first block of each operand
            m = zi(os_.n)
            self.fact(z3.And(cb(0) == 0, cb(m) == zi(bs.n),
                             z3.ForAll([K], z3.Implies(z3.And(K >= 0, K < m), z3.And(cb(K) >= 0, cb(K) < cb(K + 1), cb(K + 1) <= zi(bs.n))))))
            b.cb, b.ops = cb, os_
        if cls is CA.SeriesInverse or cls is CA.Feedback:
            raise Unsupported('use the operand')
        return c

    def seg_list(self, b, struct):
        part = self.partition(struct)

        def get(k):
            c = seg(self, b, part.off(zi(k)), part.off(z3.simplify(zi(k) + 1)))
            c.idx = (fl, z3.simplify(zi(k)))
            if getattr(b, 'ops', None) is struct:
                k = zi(k)
                c.struct = FL(z3.simplify(b.cb(k + 1) - b.cb(k)), lambda j: b.struct.get(z3.simplify(b.cb(k) + zi(j))), 'tuple')
                c.opidx = (b, k)
            return c
        fl = FL(struct.n, get, 'tuple', None, ('segs', b, part.off))
        return fl

    def series_list(self, name):
        """a non-empty tuple of circuits to be multiplied, as one component"""
        c = self.new_circ(name)
        m = self.fresh('m_' + name)
        self.fact(m >= 1)

        ff = z3.Function(self.ctx.fresh('fam'), z3.IntSort(), z3.IntSort())
        L = Base(('factor of ' + name, self.nfam), None, c.n, None)
        L.whole, L.m = c, m

        def get(k):
            k = zi(k)
            return Circ(None, c.n, lambda j: (ff(k), zi(j)), {L.key: (ff(k), lambda j: z3.And(zi(j) >= 0, zi(j) < c.n), lambda j: inp(zi(j)))},
                        None, ('elem', L, k))
        return FL(m, get, 'tuple', None, ('series', c)), c

    def circ(self, v):
        if isinstance(v, Circ):
            return v
        if v is CA.CIdentity:
            return ident(1, type(v))
        if v is CA.CircuitZero:
            return ident(0, type(v))
        raise Unsupported('circuit expected: %r' % (v,))

    def is_circ(self, v):
        return isinstance(v, Circ) or v is CA.CIdentity or v is CA.CircuitZero

    # ---------------------------------------------------------------- constructors and create
    def maker(self, cls):
        return lambda D, I, a, kw: self.make(I, cls, a, kw)

    def make(self, I, cls, args, kw):
        if cls is CA.SeriesProduct:
            return as_(ser_fl(self, args), None)
        if cls is CA.Concatenation:
            r = None
            for x in args:
                c = cat_fl(self, x) if isinstance(x, FL) else self.circ(x)
                r = c if r is None else cat(self, r, c)
            return r if r is not None else ident(0)
        if cls is CA.Feedback:
            kw = dict(kw)
            return self.feedback(self.circ(args[0]), kw['out_port'], kw['in_port'])
        if cls is CA.SeriesInverse:
            return inverse(self, self.circ(args[0]))
        if cls is CA.CPermutation:
            p = to_fl(args[0])
            return perm_circ(self, p, None, self.valid_perm(p))
        raise Unsupported('construction of %s' % cls.__name__)

    def fsum(self, fl):
        p = self.known_partition(fl)
        return z3.simplify(p.off(zi(fl.n))) if p is not None else od.ODomain.fsum(self, fl)

    def flatten(self, fl):
        """all blocks of all operands, in order"""
        k = z3.Int(self.ctx.fresh('kf'))
        e = fl.get(k)
        if isinstance(e, FL) and e.meta and e.meta[0] == 'opblocks' and self.entails(z3.And(e.meta[2] == k, zi(fl.n) == zi(e.meta[1].ops.n))):
            return self.seg_list(e.meta[1], e.meta[1].struct)
        raise Unsupported('sum of lists')

    def reduce(self, I, f, fl):
        """fold of circuits by a function that joins the next one"""
        k = self.fresh('kr')
        self.ctx.assume(z3.And(k >= 1, k < zi(fl.n)))
        e = self.circ(fl.get(k))
        if fl.meta[0] == 'segs':
            b, off = fl.meta[1:]
            acc, want, whole = seg(self, b, 0, off(k)), seg(self, b, 0, off(k + 1)), seg(self, b, 0, off(zi(fl.n)))
        else:
            acc = self.new_circ('acc', n=e.n)
            want, whole = ser(self, acc, e), fl.meta[1]
        r = I.call(f, [acc, e], {})
        self.same('one more part is joined', self.circ(r), want)
        return as_(whole, CA.SLH)

    def fl_method(self, I, o, name, args, kwargs):
        if name == 'append' and isinstance(args[0], Circ):
            v = args[0]
            n = z3.simplify(zi(o.n))
            new = None
            if v.idx is not None and (n.eq(IV(0)) or o.base and o.base[0] is v.idx[0] and self.entails(v.idx[1] == o.base[1] + n)):
                lo = v.idx[1] if n.eq(IV(0)) else o.base[1]
                src = v.idx[0]
                new = FL(z3.simplify(n + 1), lambda j: src.get(z3.simplify(lo + zi(j))), 'list', (src, lo))
            else:
                parts = o.meta[1] if o.meta and o.meta[0] == 'parts' else ([o] if not n.eq(IV(0)) else [])

                def get(j):
                    raise Unsupported('element of a composed list of circuits')
                new = FL(z3.simplify(n + 1), get, 'list', None, ('parts', parts + [v]))
            for a in ('n', 'get', 'base', 'meta'):
                self.ctx.set_attr(o, a, getattr(new, a))
            return None
        return od.ODomain.fl_method(self, I, o, name, args, kwargs)

    def valid_perm(self, p):
        """obligation: p is a permutation, through a known inverse if there is one"""
        nm = 'channel permutation from a valid permutation'
        inv = getattr(p, 'inv', None)
        b = p.base[0] if p.base else None
        if inv is None and b is not None and getattr(b, 'inv', None) and p.base[1].eq(IV(0)):
            inv = b.inv
        if inv is not None:
            n, g = zi(p.n), lambda t: zi(p.get(t))
            j = z3.Int(self.ctx.fresh('j'))
            m = self.ctx.mark()
            self.ctx.assume(z3.And(j >= 0, j < n))
            fs = [z3.And(g(j) >= 0, g(j) < n), inv(g(j)) == j, z3.And(inv(j) >= 0, inv(j) < n), g(inv(j)) == j]
            ok = all(self.entails_hard(f) for f in fs)
            if ok:
                for f in fs:
                    self.prove(nm, f)
            self.ctx.undo(m)
            if ok:
                return inv
        self.given(nm, SP.is_perm(p))
        return None

    def feedback(self, c, o, i):
        if not self.entails(c.n > 1) and not self.ctx.branch(c.n > 1, 'more than one channel'):
            raise PyRaise(ValueError, 'feedback on a single channel')
        return fb(self, c, o, i)

    def pre_call(self, I, f, args, kwargs):
        if isinstance(f, types.MethodType) and isinstance(f.__self__, type) and f.__name__ == 'create' and f.__self__ in self.classes:
            return self.make(I, f.__self__, args, kwargs)
        if f is sum and len(args) == 2 and args[1] == () and isinstance(args[0], FL):
            return self.flatten(args[0])
        if f is functools.reduce and isinstance(args[1], FL):
            return self.reduce(I, args[0], args[1])
        return od.ODomain.pre_call(self, I, f, args, kwargs)

    def super_attr(self, I, sp, name):
        if name == 'create' and isinstance(sp.obj, type):
            return functools.partial(_made, self, I, sp.obj)
        if name == '__init__':
            return functools.partial(_made, self, None, None)
        return od.ODomain.super_attr(self, I, sp, name)

    def concat(self, x, y):
        if any(f.meta and f.meta[0] in ('segs', 'series', 'parts') for f in (x, y)):
            parts = []
            for f in (x, y):
                if f.meta and f.meta[0] == 'parts':
                    parts += f.meta[1]
                elif z3.is_int_value(z3.simplify(zi(f.n))) and not f.meta and not f.base:
                    parts += [f.get(IV(i)) for i in range(z3.simplify(zi(f.n)).as_long())]
                else:
                    parts.append(f)

            def get(k):
                raise Unsupported('element of a composed list of circuits')
            return FL(z3.simplify(zi(x.n) + zi(y.n)), get, x.kind, None, ('parts', parts))
        if x.base and x.base[0].meta and x.base[0].meta[0] == 'segs':
            parts = [x] + [y.get(IV(i)) for i in range(z3.simplify(zi(y.n)).as_long())]

            def get(k):
                raise Unsupported('element of a composed list of circuits')
            return FL(z3.simplify(zi(x.n) + zi(y.n)), get, x.kind, None, ('parts', parts))
        return od.ODomain.concat(self, x, y)

    # ---------------------------------------------------------------- attributes
    def getattr(self, I, o, name):
        if not isinstance(o, Circ):
            return od.ODomain.getattr(self, I, o, name)
        if name in o.fields:
            return o.fields[name]
        if name in ('cdim', '_cdim'):
            return SInt(o.n)
        if name in ('block_structure', '_block_structure'):
            if o.struct is None:
                if o.base is None:
                    raise Unsupported('block structure of a composed circuit')
            return o.struct
        if name in ('permutation', '_permutation'):
            if o.cls is not CA.CPermutation and not self.isinstance(I, o, CA.CPermutation):
                raise PyRaise(AttributeError, name)
            if o.fwd is None:
                raise Unsupported('a component that is a permutation')
            f = FL(o.n, lambda j: SInt(o.fwd(zi(j))), 'tuple')
            if not o.nodes:
                f.inv = lambda j: o.out(zi(j))[1]
            return f
        if name in ('operands', '_operands') and o.ops is not None:
            return o.ops
        if name == 'operand' and o.operand is not None:
            return o.operand
        if name == 'out_in_pair' and o.ports:
            return (o.ports[0], o.ports[1])
        if name == 'out_port' and o.ports:
            return o.ports[0]
        if name == 'in_port' and o.ports:
            return o.ports[1]
        if name == '__class__' and o.cls is not None:
            return o.cls
        if name in ('block_perms', '_block_perms') and o.struct is not None:
            return o.struct_perms
        return BoundMethod(o, name)

    def native_getattr(self, I, o, name):
        if (o is CA.CIdentity or o is CA.CircuitZero) and callable(getattr(o, name, None)):
            return BoundMethod(self.circ(o), name)
        return NotImplemented

    def setattr(self, I, o, name, v):
        if isinstance(o, Circ):
            return self.ctx.set_item(o.fields, name, v)
        return od.ODomain.setattr(self, I, o, name, v)

    def call_method(self, I, m, args, kwargs):
        o = m.obj
        if not isinstance(o, Circ):
            return od.ODomain.call_method(self, I, m, args, kwargs)
        nm = m.name
        kw = dict(kwargs)
        if nm in ('feedback', '_feedback'):
            last = SInt(z3.simplify(o.n - 1))
            g = lambda k: last if kw.get(k) is None else kw[k]
            return self.feedback(o, g('out_port'), g('in_port'))
        if nm in ('series_inverse', '_series_inverse'):
            return inverse(self, o)
        if nm in ('creduce', '_creduce'):
            return as_(o, None)
        if nm in ('toSLH', '_toSLH'):
            return as_(o, CA.SLH)
        if nm in ('series_with_slh', '__lshift__', 'series_with_permutation'):
            return ser(self, o, self.circ(args[0]))
        if nm in ('concatenate_slh', '__add__'):
            return cat(self, o, self.circ(args[0]))
        if nm == 'index_in_block':
            return self.index_in_block(o, args[0])
        if nm in ('get_blocks', '_get_blocks'):
            return self.get_blocks(o, args[0] if args else kw.get('block_structure'))
        cls = o.cls or CA.Circuit
        f = self.find(cls, nm)
        if f is None:
            raise PyRaise(AttributeError, nm)
        return I.call_python(unwrap(f[1]), [o] + list(args), kwargs, f[0])

    # ---------------------------------------------------------------- contracts of methods
    def index_in_block(self, c, ch):
        t = zi(ch)
        ok = z3.And(t >= 0, t < c.n)
        if not self.entails(ok) and not self.ctx.branch(ok, 'valid channel'):
            raise PyRaise(ValueError, 'channel')
        part = self.partition(c.struct)
        b = self.fresh('b')
        self.fact(z3.And(b >= 0, b < zi(c.struct.n), part.off(b) <= t, t < part.off(b + 1), b == part.blk(t)))
        return (SInt(z3.simplify(t - part.off(b))), SInt(b))

    def get_blocks(self, c, struct):
        if c.opidx is not None and struct is None:
            return FL(c.struct.n, lambda j: 1 / 0, 'tuple', None, ('opblocks',) + c.opidx)
        if c.base is None and c.perm is None:
            raise Unsupported('blocks of a composed circuit')
        if c.base is None:
            b = Base(('perm', 0), None, c.n, c.struct)
            b.perm = (c.perm, c.tree[2])
        else:
            b = c.base
        if struct is None:
            return self.seg_list(b, c.struct)
        # either every boundary is a boundary of a block, or the request is refused
        if isinstance(struct, FL):
            part = self.partition(struct)
            self.given('requested blocks cover the circuit', part.off(zi(struct.n)) == c.n)
            return self.seg_list(b, struct)
        out = []
        lo = IV(0)
        for s in self.I.to_seq(struct).values():
            hi = z3.simplify(lo + zi(s))
            out.append(seg(self, b, lo, hi))
            lo = hi
        self.given('requested blocks cover the circuit', lo == c.n)
        return tuple(out)

    # ---------------------------------------------------------------- dispatch
    def binop(self, I, name, a, b):
        if self.is_circ(a) and self.is_circ(b):
            if name == '<<':
                return ser(self, self.circ(a), self.circ(b))
            if name == '+':
                return cat(self, self.circ(a), self.circ(b))
        return od.ODomain.binop(self, I, name, a, b)

    def native_binop(self, I, name, a, b):
        if self.is_circ(a) and self.is_circ(b):
            return self.binop(I, name, a, b)
        return NotImplemented

    def isinstance(self, I, o, c):
        if not isinstance(o, Circ):
            return od.ODomain.isinstance(self, I, o, c)
        if not isinstance(c, type):
            return False
        if o.cls is not None:
            return issubclass(o.cls, c)
        if issubclass(CA.Circuit, c):
            return True
        if not issubclass(c, CA.Circuit):
            return False
        if c in o.isc:
            return o.isc[c]
        if c is CA.CPermutation and o.fwd is not None:
            j = z3.Int(self.ctx.fresh('w'))
            r = self.ctx.branch(z3.Exists([J], z3.And(J >= 0, J < o.n, o.fwd(J) != J)), 'not the identity')
        else:
            r = self.ctx.choose(2, 'is a %s' % c.__name__) == 1
        self.ctx.set_item(o.isc, c, r)
        return r

    def equal(self, I, a, b):
        if self.is_circ(a) and self.is_circ(b):
            a, b = self.circ(a), self.circ(b)
            if a is b:
                return True
            if self.ctx.choose(2, 'circuits equal') == 0:
                if a.fwd is not None and b.fwd is not None:
                    self.fact(z3.Or(a.n != b.n, z3.Exists([J], z3.And(J >= 0, J < a.n, a.fwd(J) != b.fwd(J)))))
                return False
            self.assume_same(a, b)
            return True
        return od.ODomain.equal(self, I, a, b)

    def assume_same(self, a, b):
        """the two circuits are the same expression"""
        self.fact(a.n == b.n)
        if a.nodes and b.nodes and set(a.nodes) != set(b.nodes):
            return
        if not a.nodes or not b.nodes:
            for x, y in ((a, b), (b, a)):
                for k, (F, p, i) in x.nodes.items():      # this part of the component is a set of pass-through lines
                    self.transp.append((k, F, p))
                    self.ctx.trail.append(self.transp.pop)
            if a.nodes or b.nodes:
                return
        oa, ob = a.out(J), b.out(J)
        self.fact(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < a.n), z3.And(oa[0] == ob[0], oa[1] == ob[1]))))

    def truth(self, I, v):
        if isinstance(v, Circ):
            return True
        return od.ODomain.truth(self, I, v)

    def is_(self, I, a, b):
        if isinstance(a, Circ) or isinstance(b, Circ):
            return a is b
        return od.ODomain.is_(self, I, a, b)

    def type_of(self, I, o):
        if isinstance(o, Circ) and o.cls:
            return o.cls
        return od.ODomain.type_of(self, I, o)

    # ---------------------------------------------------------------- equality of wirings
    def plain(self, X):
        """pass-through parts replaced by their lines"""
        for key, F, p in self.transp:
            if key not in X.nodes:
                continue
            _, pres, inn = X.nodes[key]

            def elim(src, F=F, p=p, inn=inn):
                return pick(z3.And(src[0] == F, p(src[1])), inn(src[1]), src)
            nodes = {k: (f, q, (lambda j, i=i, elim=elim: elim(i(j)))) for k, (f, q, i) in X.nodes.items()}
            f, q, i = nodes[key]
            nodes[key] = (f, lambda j, q=q, p=p: z3.And(q(j), z3.Not(p(zi(j)))), i)
            X = Circ(X.cls, X.n, lambda j, o=X.out, elim=elim: elim(o(j)), nodes, None, None)
        return X

    def same(self, name, X, Y):
        X, Y = self.plain(X), self.plain(Y)
        self.given(name + ': number of channels', X.n == Y.n)
        j = z3.Int(self.ctx.fresh('ch'))
        m = self.ctx.mark()
        self.ctx.assume(z3.And(j >= 0, j < X.n))
        a, b = X.out(j), Y.out(j)
        self.prove(name + ': source of every output', z3.And(a[0] == b[0], a[1] == b[1]))
        self.ctx.undo(m)
        for k in sorted(set(X.nodes) | set(Y.nodes)):
            j = z3.Int(self.ctx.fresh('port'))
            no = (None, lambda j: z3.BoolVal(False), lambda j: inp(j))
            fx, px, ix = X.nodes.get(k, no)
            fy, py, iy = Y.nodes.get(k, no)
            self.prove('%s: parts of %s present' % (name, k[0]), px(j) == py(j))
            m = self.ctx.mark()
            self.ctx.assume(z3.And(px(j), py(j)))
            a, b = ix(j), iy(j)
            self.prove('%s: source of every input port of %s' % (name, k[0]), z3.And(a[0] == b[0], a[1] == b[1]))
            self.ctx.undo(m)


# -------------------------------------------------------------------- contracts of functions

def c_invert(D, I, args, kw):
    p = to_fl(args[0])
    if getattr(p, 'inv', None):
        r = FL(p.n, lambda j: SInt(p.inv(zi(j))), 'tuple')
    else:
        r = SP.c_invert(D, I, args, kw)
    r.inv = lambda j: zi(p.get(j))
    return r


def c_concat(D, I, args, kw):
    a, b = to_fl(args[0]), to_fl(args[1])
    for x in (a, b):
        D.prove('precondition of concatenate_permutations: a permutation', SP.is_perm(x))
    n = zi(a.n)
    return FL(z3.simplify(n + zi(b.n)), lambda j: SInt(If(zi(j) < n, zi(a.get(j)), n + zi(b.get(zi(j) - n)))), 'tuple')


def c_common(D, I, args, kw):
    """a common coarsening of the block structures"""
    a, b = to_fl(args[0]), to_fl(args[1])
    pa, pb = D.partition(a), D.partition(b)
    D.prove('block structures with the same number of channels', pa.off(zi(a.n)) == pb.off(zi(b.n)))
    r = SP.block_struct(D, 'common')
    D.fact(z3.Implies(zi(a.n) >= 1, zi(r.n) >= 1))
    D.last_common = r
    pr = D.partition(r)
    D.fact(pr.off(zi(r.n)) == pa.off(zi(a.n)))
    return r


def c_within(D, I, args, kw):
    """some block permutation, and a permutation of each block (C01)"""
    p, bs = to_fl(args[0]), to_fl(args[1])
    part = D.partition(bs)
    D.given('block structure of the permutation', part.off(zi(bs.n)) == zi(p.n))
    bp = SP.new_perm(D, 'bp', bs.n)
    wf = D.fresh_fn('w', z3.IntSort(), z3.IntSort(), z3.IntSort())
    wi = D.fresh_fn('winv', z3.IntSort(), z3.IntSort(), z3.IntSort())
    size = lambda k: zi(bs.get(k))
    rng = z3.And(K >= 0, K < zi(bs.n), J >= 0, J < size(K))
    D.fact(z3.ForAll([K, J], z3.Implies(rng, z3.And(wf(K, J) >= 0, wf(K, J) < size(K), wi(K, wf(K, J)) == J)), patterns=[wf(K, J)]))
    D.fact(z3.ForAll([K, J], z3.Implies(rng, z3.And(wi(K, J) >= 0, wi(K, J) < size(K), wf(K, wi(K, J)) == J)), patterns=[wi(K, J)]))

    def get(k):
        f = FL(size(zi(k)), lambda j: SInt(wf(zi(k), zi(j))), 'tuple')
        f.inv = lambda j: wi(zi(k), zi(j))
        return f
    D.owners.append(lambda j: zi(bp.get(part.blk(j))))
    D.ctx.trail.append(D.owners.pop)
    return (bp, FL(bs.n, get, 'list'))


def c_full_block(D, I, args, kw):
    """channel j of block k goes to channel j of the image of the block (C01)"""
    bp, bs = args[0], to_fl(args[1])
    n = zi(bs.n)
    a = D.partition(bs)
    b = D.partition(FL(n, lambda j: bs.get(bp.inv(zi(j))), 'list'))
    tot = a.off(n)
    D.fact(b.off(n) == tot)            # the same sizes in another order

    def f(j):
        k = a.blk(zi(j))
        return b.off(zi(bp.get(k))) + zi(j) - a.off(k)

    def g(j):
        k = b.blk(zi(j))
        return a.off(bp.inv(k)) + zi(j) - b.off(k)
    r = FL(tot, lambda j: SInt(f(j)), 'tuple')
    r.inv = g
    return r


def single_map(a, b):
    """position of channel k when channel a goes to b and the others keep their order"""
    def f(k):
        r = If(k > a, k - 1, k)
        return z3.simplify(If(k == a, b, If(r >= b, r + 1, r)))
    return f


def c_map_channels(D, I, args, kw):
    mapping, n = args[0], zi(args[1])
    items = D.dict_pairs(mapping)
    if len(items) != 1:
        raise Unsupported('mapping of several channels')
    a, b = zi(items[0][0]), zi(items[0][1])
    D.given('channels of the mapping', z3.And(a >= 0, a < n, b >= 0, b < n))
    f, g = single_map(a, b), single_map(b, a)
    p = FL(n, lambda j: SInt(f(zi(j))), 'tuple')
    return perm_circ(D, p, None, lambda j: g(zi(j)))


def _dict_pairs(self, m):
    if isinstance(m, dict):
        return [(k, v) for k, v in m.items()]
    if isinstance(m, SDict) and m.acc is None:
        return list(m.items)
    raise Unsupported('mapping %r' % (m,))


CDomain.dict_pairs = _dict_pairs


def _made(D, I, cls, *a, **kw):
    return D.make(I, cls, list(a), kw) if cls is not None else None


_made.symbolic_ok = True


# -------------------------------------------------------------------- rules

def from_pattern(D, p, binds, series=False):
    from qnet.algebra.pattern_matching import Pattern
    if not isinstance(p, Pattern):
        return D.circ(p)
    nm = p.wc_name
    if nm:
        if p.head is int:
            v = D.int(nm)
            binds[nm] = v
            return v
        if p.mode != Pattern.single:
            fl, c = D.series_list(nm)
            binds[nm] = fl
            return c
        if nm in binds:
            return D.circ(binds[nm])
        if p.head is CA.SeriesProduct:
            a, b = D.new_circ(nm + '1'), D.new_circ(nm + '2')
            c = ser(D, a, b, True, CA.SeriesProduct)
        else:
            c = D.new_circ(nm, None if p.head is CA.Circuit else p.head)
        binds[nm] = c
        return c
    if p.head is CA.SeriesProduct:
        r = None
        for q in p.args:
            c = from_pattern(D, q, binds, True)
            r = c if r is None else ser(D, r, c, True)
        return as_(r, None)
    if p.head is CA.SeriesInverse:
        return inverse(D, from_pattern(D, p.args[0], binds))
    raise Unsupported('pattern %r' % (p,))


def cancel(D, A, B):
    """X << X^-1 and X^-1 << X are identities"""
    ta, tb = A.tree, B.tree
    if ta and tb and ta[0] == 'seg' and tb[0] == 'seg' and D.invs.get(ta[1].key) is tb[1]:
        return ident(A.n)
    return None


def rule_task(cls, table, rule):
    def t(ctx):
        D, I = od.setup(ctx, cls=CDomain)
        pat, repl = getattr(cls, table)[rule]
        binds = {}
        ops = [from_pattern(D, q, binds) for q in pat.args]
        kws = {k: from_pattern(D, q, binds) for k, q in (pat.kwargs or {}).items()}
        if cls is CA.SeriesProduct:
            lhs = cancel(D, *ops) or ser(D, ops[0], ops[1], True)
        elif cls is CA.Concatenation:
            lhs = cat(D, ops[0], ops[1])
        else:
            lhs = fb(D, ops[0], kws['out_port'], kws['in_port'], True)
        try:
            r = I.call(repl, [], binds)
        except PyRaise as e:
            if issubclass(e.exc_type, (EX.CannotSimplify, EX.IncompatibleBlockStructures)):
                return
            if issubclass(e.exc_type, ValueError):
                return            # documented: feedback needs more than one channel
            raise
        D.same('rewritten circuit has the same wiring', lhs, D.circ(r))
    return t


def rule_tasks():
    for cls, table in ((CA.SeriesProduct, '_binary_rules'), (CA.Concatenation, '_binary_rules'), (CA.Feedback, '_rules')):
        for r in getattr(cls, table):
            yield '%s.%s' % (cls.__name__, r), rule_task(cls, table, r), 'qnet.algebra._rules:%s.%s' % (cls.__name__, r)


def tasks():
    yield from rule_tasks()
    yield from METHODS()


# -------------------------------------------------------------------- methods

def method(fn, mk, spec, args=(), kw=None, loops=None, contracts=None):
    """the wiring of fn(self, ...) is the one given by spec"""
    def t(ctx):
        D, I = od.setup(ctx, cls=CDomain, loops=loops(ctx) if loops else None)
        for f in contracts or ():
            D.contracts.pop(unwrap(f), None)
        s, a, k, env = mk(D)
        want = spec(D, s, env)
        try:
            r = I.call_python(unwrap(fn), ([s] if s is not None else []) + a, k)
        except PyRaise as e:
            if issubclass(e.exc_type, (EX.CannotSimplify, EX.IncompatibleBlockStructures)) or \
                    e.exc_type is ValueError and 'single channel' in str(e.args_):
                return
            raise
        D.same('wiring', D.circ(r), want)
    return t


def ports(D, c):
    return D.int('out', 0, c.n), D.int('in_', 0, c.n)


def t_feedback(fn, cls):
    def t(ctx):
        D, I = od.setup(ctx, cls=CDomain)
        c = D.new_circ('A', cls)
        if cls is CA.CPermutation:
            D.fact(c.n > 1)
        o, i = ports(D, c)
        want = fb(D, c, o, i, True)
        try:
            r = I.call_python(unwrap(fn), [c], {'out_port': o, 'in_port': i})
        except PyRaise as e:
            if issubclass(e.exc_type, ValueError):      # the block has a single channel
                return
            raise
        D.same('feedback', D.circ(r), want)
    return t


def t_feedback_default(fn):
    def t(ctx):
        D, I = od.setup(ctx, cls=CDomain)
        c = D.new_circ('A')
        o, i = ports(D, c)
        kw = {}
        if ctx.choose(2, 'out_port given'):
            kw['out_port'] = o
        else:
            o = SInt(c.n - 1)
        if ctx.choose(2, 'in_port given'):
            kw['in_port'] = i
        else:
            i = SInt(c.n - 1)
        if ctx.choose(2, 'None') and len(kw) < 2:
            kw.setdefault('out_port', None)
            kw.setdefault('in_port', None)
        want = fb(D, c, o, i, True)
        D.same('feedback (default: last port)', D.circ(I.call_python(unwrap(fn), [c], kw)), want)
    return t


def of_series(D, cls):
    fl, whole = D.series_list('ops')
    c = as_(whole, cls)
    c.ops = fl
    return c


def of_feedback(D):
    a = D.new_circ('A')
    o, i = ports(D, a)
    c = as_(fb(D, a, o, i, True), CA.Feedback)
    c.operand, c.ports = a, (o, i)
    c.ops = (a,)
    return c


def of_inverse(D):
    a = D.new_circ('A')
    c = as_(inverse(D, a), CA.SeriesInverse)
    c.operand = a
    c.ops = (a,)
    return c


def of(D, cls):
    if cls is CA.SeriesProduct:
        return of_series(D, cls)
    if cls is CA.Feedback:
        return of_feedback(D)
    if cls is CA.SeriesInverse:
        return of_inverse(D)
    return D.new_circ('A', cls)


def t_unary(cls, name, want):
    fn = cls.__dict__[name]

    def t(ctx):
        D, I = od.setup(ctx, cls=CDomain)
        c = of(D, cls)
        w = want(D, c)
        D.same(name, D.circ(I.call_python(unwrap(fn), [c], {})), w)
    return t


def t_cdim(cls):
    fn = cls.__dict__['cdim'].fget

    def t(ctx):
        D, I = od.setup(ctx, cls=CDomain)
        c = of(D, cls)
        if cls is CA.Concatenation:
            c.fields['_cdim'] = None if ctx.choose(2, 'cached') == 0 else SInt(c.n)
        r = I.call_python(fn, [c], {})
        D.prove('channel dimension', zi(r) == c.n)
        D.prove('cached value', z3.BoolVal(True) if not isinstance(c.fields.get('_cdim'), SInt) else zi(c.fields['_cdim']) == c.n)
    return t


def t_index(ctx):
    box = {}

    def inv(st):
        c, ch = box['c'], box['ch']
        i = zi(st['i'])
        return [('position', z3.And(i >= 1, box['off'](i - 1) <= zi(ch), i - 1 < zi(c.struct.n)))]
    D, I = od.setup(ctx, cls=CDomain, loops={(CA.Circuit.index_in_block, 0): Loop(inv)})
    c = D.new_circ('A')
    part = D.partition(c.struct)
    n = zi(c.struct.n)
    D.induct('a block has at least one channel', lambda k: part.off_(k) >= k, n)
    ch = D.int('channel')
    box.update(c=c, ch=ch, off=part.off)
    try:
        r = I.call_python(CA.Circuit.index_in_block, [c, ch], {})
    except PyRaise as e:
        D.prove('refused only outside the circuit', z3.Or(zi(ch) < 0, zi(ch) >= c.n))
        return
    D.prove('accepted only inside the circuit', z3.And(zi(ch) >= 0, zi(ch) < c.n))
    k, b = [zi(x) for x in I.to_seq(r).values()]
    D.prove('block of the channel', z3.And(b >= 0, b < n, part.off_(b) <= zi(ch), zi(ch) < part.off_(b + 1)))
    D.prove('position in the block', k == zi(ch) - part.off_(b))


def t_structure(ctx):
    """block structure of a concatenation"""
    box = {}

    def inv(st):
        b = box['b']
        r = to_fl(st['result'])
        n = b.cb(st.k)
        return [('blocks of the operands so far', z3.And(zi(r.n) == n, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), zi(r.get(J)) == zi(b.struct.get(J))))))]
    fn = CA.Concatenation.__dict__['_block_structure'].fget
    D, I = od.setup(ctx, cls=CDomain, loops={(fn, 0): Loop(inv, {'result': lambda D, o: D.intlist('res', kind='list')})})
    c = D.new_circ('A', CA.Concatenation)
    box['b'] = c.base
    r = to_fl(I.call_python(fn, [c], {}))
    n = zi(c.struct.n)
    D.prove('number of blocks', zi(r.n) == n)
    D.prove('sizes of the blocks', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), zi(r.get(J)) == zi(c.struct.get(J)))))


def t_blocks(ctx):
    """Concatenation._get_blocks: contiguous groups of blocks of the requested sizes"""
    box = {}

    def inner(st):
        pos = st.D.iters[0].pos
        cbo = to_fl(st['cbo'])
        n = z3.simplify(zi(cbo.n))
        if n.eq(IV(0)):
            box['p0'] = pos
        p0, off = box['p0'], box['boff']
        return [('blocks taken', z3.And(p0 >= 0, n >= 0, pos == p0 + n, pos <= zi(box['c'].struct.n))),
                ('length', zi(st['current_length']) == off(pos) - off(p0))]

    def outer(st):
        D, k, soff, off = st.D, st.k, box['soff'], box['boff']
        bl = to_fl(st['blocks'])
        if bl.meta and bl.meta[0] == 'parts':
            D.same('requested block', D.circ(bl.meta[1][-1]), seg(D, box['c'].base, soff(k - 1), soff(k)))
        pos = D.iters[0].pos
        return [('number of groups', zi(bl.n) == k), ('position', z3.And(pos >= 0, pos <= zi(box['c'].struct.n), off(pos) == soff(k))),
                ('nothing left over', z3.And(zi(to_fl(st['cbo']).n) == 0, zi(st['current_length']) == 0))]

    def cbo(D, o):
        if o is not None and isinstance(o, FL) and o.base is None and box.get('level') == 'outer':
            return FL(IV(0), o.get, 'list')
        n = D.fresh('ncbo')
        D.fact(n >= 0)
        p0, src = box['p0'], box['src']
        return FL(n, lambda j: src.get(z3.simplify(p0 + zi(j))), 'list', (src, p0))

    def blocks(D, o):
        n = D.fresh('nblocks')
        D.fact(n >= 0)
        c = box['c']
        f = D.seg_list(c.base, box['struct'])
        return FL(n, f.get, 'list', (f, IV(0)))
    fn = CA.Concatenation._get_blocks
    D, I = od.setup(ctx, cls=CDomain, loops={
        (fn, 0): Loop(outer, {'blocks': blocks, 'cbo': lambda D, o: FL(IV(0), lambda j: SInt(IV(0)), 'list')}, ghost='iterators'),
        (fn, 1): Loop(inner, {'cbo': cbo}, ghost='iterators')})
    c = D.new_circ('A', CA.Concatenation)
    st = SP.block_struct(D, 'want')
    sp = D.partition(st)
    D.fact(sp.off(zi(st.n)) == c.n)
    bp = D.partition(c.struct)
    box.update(c=c, struct=st, soff=sp.off, boff=bp.off)
    flat = D.flatten
    D.flatten = lambda fl: box.setdefault('src', flat(fl))
    try:
        r = I.call_python(fn, [c, st], {})
    except PyRaise as e:
        if issubclass(e.exc_type, EX.IncompatibleBlockStructures):
            return
        raise
    r = to_fl(r)
    D.prove('one circuit per requested block', zi(r.n) == zi(st.n))


def t_perm_create(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    p = D.intlist('p', kind='tuple' if ctx.choose(2, 'list') == 0 else 'list')
    try:
        r = I.call_python(unwrap(CA.CPermutation.create), [CA.CPermutation, p], {})
    except PyRaise as e:
        if issubclass(e.exc_type, CA.BadPermutationError):
            D.prove('refused only if not a permutation', z3.Not(SP.is_perm(p)))
            return
        raise
    D.prove('accepted only if a permutation', SP.is_perm(p))
    D.same('permutation', D.circ(r), perm_circ(D, p))


def t_perm_pair(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    a = D.new_circ('A', CA.CPermutation)
    b = D.new_circ('B', CA.CPermutation, a.n)
    b2 = D.new_circ('B2', CA.CPermutation)
    want = ser(D, a, b, True)
    D.same('series of permutations', D.circ(I.call_python(unwrap(CA.CPermutation.series_with_permutation), [a, b], {})), want)


def t_perm_blocks(ctx):
    """CPermutation._get_blocks"""
    box = {}

    def cur(st):
        return to_fl(st['current_perm'])

    def inner(st):
        pos = st.D.iters[0].pos
        c = cur(st)
        if z3.simplify(zi(c.n)).eq(IV(0)):
            box['p0'] = pos
        p0, off, g = box['p0'], box['boff'], box['g']
        return [('blocks taken', z3.And(p0 >= 0, pos >= p0, pos <= box['nb'], zi(c.n) == off(pos) - off(p0))),
                ('permutation of these channels', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(c.n)), zi(c.get(J)) == g(off(p0) + J) - off(p0))))]

    def outer(st):
        D, k, soff, off, g = st.D, st.k, box['soff'], box['boff'], box['g']
        bl = to_fl(st['block_perms'])
        pos = D.iters[0].pos
        return [('number of groups', zi(bl.n) == k), ('position', z3.And(pos >= 0, pos <= box['nb'], off(pos) == soff(k))),
                ('nothing left over', zi(cur(st).n) == 0),
                ('groups', lambda K: z3.And(zi(bl.get(K).n) == soff(K + 1) - soff(K),
                                            z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(bl.get(K).n)), zi(bl.get(K).get(J)) == g(soff(K) + J) - soff(K)))))]
    fn = CA.CPermutation._get_blocks
    empty = lambda D, o: FL(IV(0), lambda j: SInt(IV(0)), 'list')
    D, I = od.setup(ctx, cls=CDomain, loops={
        (fn, 0): Loop(outer, {'block_perms': lambda D, o: D.intlistlist('bps', kind='list', inner='tuple'), 'current_perm': empty}, ghost='iterators'),
        (fn, 1): Loop(inner, {'current_perm': lambda D, o: D.intlist('cur', kind='list')}, ghost='iterators')})
    c = D.new_circ('A', CA.CPermutation)
    bs = D.struct_of('A', c.n)
    bp = D.partition(bs)
    c.struct = bs
    g = lambda t: zi(c.perm.get(t))
    nb = zi(bs.n)
    D.fact(z3.ForAll([K, J], z3.Implies(z3.And(K >= 0, K < nb, bp.off_(K) <= J, J < bp.off_(K + 1)), z3.And(g(J) >= bp.off_(K), g(J) < bp.off_(K + 1))),
                     patterns=[z3.MultiPattern(bp.off_(K), g(J))]))
    c.struct_perms = FL(nb, lambda k: FL(zi(bs.get(k)), lambda j: SInt(z3.simplify(g(bp.off_(zi(k)) + zi(j)) - bp.off_(zi(k)))), 'tuple'), 'tuple')
    st = SP.block_struct(D, 'want')
    sp = D.partition(st)
    D.fact(sp.off(zi(st.n)) == c.n)
    box.update(c=c, struct=st, soff=sp.off_, boff=bp.off_, g=g, nb=nb)
    created = []

    def make(I, cls, args, kw):
        if cls is CA.CPermutation and D.generic:
            created.append(args[0])
            return Circ(None, zi(args[0].n), lambda j: inp(j), tree=('id', zi(0)))
        return CDomain.make(D, I, cls, args, kw)
    D.make = make
    try:
        r = to_fl(I.call_python(fn, [c, st], {}))
    except PyRaise as e:
        if e.exc_type is Exception:          # incompatible structure
            return
        raise
    D.prove('one circuit per requested block', zi(r.n) == zi(st.n))
    if D.entails(z3.And(zi(st.n) == nb, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < nb), zi(st.get(J)) == zi(bs.get(J)))))):
        D.induct('own structure', lambda k: sp.off_(k) == bp.off_(k), nb)
    k, j = z3.Int(ctx.fresh('k')), z3.Int(ctx.fresh('j'))
    ctx.assume(z3.And(k >= 0, k < zi(st.n), j >= 0, j < sp.off_(k + 1) - sp.off_(k)))
    i = D.I and created[-1]
    gi = z3.Int('gi!')
    pk = vsub(i, [(box_index(i), k)]) if box_index(i) is not None else i
    D.prove('block permutation', z3.And(zi(pk.n) == sp.off_(k + 1) - sp.off_(k), zi(pk.get(j)) == g(sp.off_(k) + j) - sp.off_(k)))


def box_index(fl):
    """the generic index a list depends on"""
    out = []

    def walk(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('g#'):
            out.append(e)
        for x in e.children():
            walk(x)
    walk(zi(fl.n))
    walk(zi(fl.get(z3.Int('bx!'))))
    return out[0] if out else None


def t_default_blocks(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    c = D.new_circ('A')
    c.struct = FL(IV(1), lambda j: SInt(c.n), 'tuple')
    r = I.call_python(CA.Circuit._get_blocks, [c, c.struct], {})
    r = I.to_seq(r).values()
    D.prove('a single block', z3.BoolVal(len(r) == 1))
    D.same('the block is the circuit', D.circ(r[0]), c)
    q = D.intlist('bs')
    try:
        I.call_python(CA.Circuit._get_blocks, [c, q], {})
    except PyRaise as e:
        if issubclass(e.exc_type, EX.IncompatibleBlockStructures):
            D.prove('refused only if different', z3.Or(zi(q.n) != 1, zi(q.get(IV(0))) != c.n))
            return
        raise
    D.prove('accepted only the own structure', z3.And(zi(q.n) == 1, zi(q.get(IV(0))) == c.n))


def t_default_structure(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    c = D.new_circ('A')
    r = to_fl(I.call_python(CA.Circuit.__dict__['_block_structure'].fget, [c], {}))
    D.prove('one block with all channels', z3.And(zi(r.n) == 1, zi(r.get(IV(0))) == c.n))


def t_get_blocks(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    c = D.new_circ('A')
    r = to_fl(I.call_python(CA.Circuit.get_blocks, [c], {}))
    part = D.partition(c.struct)
    k = z3.Int(ctx.fresh('k'))
    ctx.assume(z3.And(k >= 0, k < zi(c.struct.n)))
    D.prove('all blocks', zi(r.n) == zi(c.struct.n))
    D.same('block', r.get(k), seg(D, c.base, part.off(k), part.off(k + 1)))


def t_create_feedback(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    c = D.new_circ('A')
    o, i = ports(D, c)
    try:
        r = I.call_python(unwrap(CA.Feedback.create), [CA.Feedback, c], {'out_port': o, 'in_port': i})
    except PyRaise as e:
        if issubclass(e.exc_type, ValueError):
            D.prove('refused only for a single channel', c.n <= 1)
            return
        raise
    D.prove('accepted only for more than one channel', c.n > 1)
    D.same('feedback', D.circ(r), fb(D, c, o, i, True))


def t_create_inverse(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    which = ctx.choose(3, 'kind')
    c = D.new_circ('A') if which == 0 else of_inverse(D) if which == 1 else of_feedback(D)
    if which == 0:
        c.isc[CA.SeriesInverse] = False      # the other case
    D.same('series inverse', D.circ(I.call_python(unwrap(CA.SeriesInverse.create), [CA.SeriesInverse, c], {})), inverse(D, c))


def t_identity(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    D.contracts.pop(unwrap(CA.circuit_identity))
    n = D.int('n')
    r = D.circ(I.call_python(CA.circuit_identity, [n], {}))
    D.same('identity', r, ident(z3.If(n.t > 0, n.t, 0)))


def t_extract(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    n = D.int('n', 1)
    k = D.int('k', 0, n.t)
    r = D.circ(I.call_python(CA.extract_channel, [k, n], {}))
    f, g = single_map(k.t, n.t - 1), single_map(n.t - 1, k.t)
    # the k-th input is sent to the last output, the order of the others is kept: output n-1 carries input k
    D.prove('channels', r.n == n.t)
    j = z3.Int('jj')
    ctx.assume(z3.And(j >= 0, j < n.t))
    a = r.out(j)
    want = (f(j), g(j))[box_extract]
    D.prove('extracted channel', z3.And(a[0] == EXT, a[1] == want))


box_extract = 1


def t_map(ctx):
    box = {}

    def inv(st):
        n, a, f, b = box['n'], box['a'], box['f'], box['b']
        k = st.k
        p, fv = to_fl(st['permutation']), to_fl(st['free_values'])
        r = z3.If(k > a, k - 1, k)
        return [('length', z3.And(zi(p.n) == k, zi(fv.n) == n - 1 - r)),
                ('unused outputs', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(fv.n)), zi(fv.get(J)) == z3.If(J + r >= b, J + r + 1, J + r)))),
                ('images so far', lambda K: zi(p.get(K)) == f(K))]
    D, I = od.setup(ctx, cls=CDomain)
    D.contracts.pop(unwrap(CA.map_channels))
    ns = [x for x in od.loops_of(CA.map_channels)]
    D.loops[id(ns[-1])] = Loop(inv, {'permutation': lambda D, o: D.intlist('perm', kind='list'), 'free_values': lambda D, o: D.intlist('free', kind='list')})
    n = D.int('n', 1)
    a, b = D.int('a', 0), D.int('b', 0)
    f, g = single_map(a.t, b.t), single_map(b.t, a.t)
    box.update(n=n.t, a=a.t, b=b.t, f=f)
    made = []

    def make(I, cls, args, kw):
        made.append(to_fl(args[0]))
        p = FL(n, lambda j: SInt(f(zi(j))), 'tuple')
        D.prove('images', z3.And(zi(made[0].n) == n.t, SP.all_j(n, lambda j: zi(made[0].get(j)) == f(j))))
        return perm_circ(D, p, None, g)
    D.make = make
    try:
        I.call_python(CA.map_channels, [SDict([(a, b)]), n], {})
    except PyRaise as e:
        if issubclass(e.exc_type, ValueError):
            D.prove('refused only outside the circuit', z3.Or(a.t >= n.t, b.t >= n.t))
            return
        raise
    D.prove('accepted only inside the circuit', z3.And(a.t < n.t, b.t < n.t))
    D.prove('a permutation is made', z3.BoolVal(len(made) == 1))


def t_pad(ctx):
    D, I = od.setup(ctx, cls=CDomain)
    A = D.new_circ('A')
    n = D.int('n', 0)
    k = D.int('k', 0, A.n + 1)
    r = D.circ(I.call_python(CA.pad_with_identity, [A, k, n], {}))
    up = lambda j: inp(z3.simplify(If(j < k.t, j, j + n.t)))
    want = Circ(None, A.n + n.t, lambda j: pick(z3.And(j >= k.t, j < k.t + n.t), inp(j), bind(A.out(z3.simplify(If(j < k.t, zi(j), j - n.t))), up)),
                mapin(A.nodes, up))
    D.same('padded circuit', r, want)


def t_common(ctx):
    box = {}

    def inv(st):
        i, j = zi(st['i']), zi(st['j'])
        return [('positions', z3.And(i >= 1, j >= 1))]
    fn = RULES._get_common_block_structure
    D, I = od.setup(ctx, cls=CDomain, loops={(fn, 0): Loop(inv)})
    a, b = SP.block_struct(D, 'a'), SP.block_struct(D, 'b')
    pa, pb = D.partition(a), D.partition(b)
    na, nb = zi(a.n), zi(b.n)
    D.induct('positive sums (1)', lambda k: pa.off_(k) >= k, na)
    D.induct('positive sums (2)', lambda k: pb.off_(k) >= k, nb)
    try:
        r = to_fl(I.call_python(fn, [a, b], {}))
    except PyRaise as e:
        if issubclass(e.exc_type, EX.IncompatibleBlockStructures):
            D.prove('refused only for different numbers of channels', pa.off_(na) != pb.off_(nb))
            return
        raise
    D.prove('accepted only equal numbers of channels', pa.off_(na) == pb.off_(nb))
    D.prove('sizes are positive', SP.all_j(r.n, lambda j: zi(r.get(j)) >= 1))
    rec = getattr(D, 'last_common', None)
    if rec is None:
        D.prove('empty only if both are empty', z3.And(zi(r.n) == 0, na == 0, nb == 0))
        return
    pr = D.partition(r)
    D.induct('sum of the tail', lambda k: z3.Implies(k <= zi(rec.n), pr.off_(k + 1) == zi(r.get(IV(0))) + D.partition(rec).off_(k)), zi(rec.n),
             hint=lambda k: (D.prefix_at(r, k), D.prefix_at(r, k + 1), D.prefix_at(rec, k)))
    D.prove('same number of channels', pr.off_(zi(r.n)) == pa.off_(na))


def lin(fn, op):
    def t(ctx):
        D, I = od.setup(ctx, cls=CDomain)
        a, b = D.new_circ('A'), D.new_circ('B')
        want = (ser(D, a, b, True) if op == '<<' else cat(D, a, b))
        D.same('operator ' + op, D.circ(I.call_python(fn, [a, b], {})), want)
    return t


def METHODS():
    S, C, F, V, Pm, X = CA.SeriesProduct, CA.Concatenation, CA.Feedback, CA.SeriesInverse, CA.CPermutation, CA.Circuit
    keep = lambda D, c: c
    inv = lambda D, c: inverse(D, c)
    for cls in (S, C, F, V):
        yield cls.__name__ + '.cdim', t_cdim(cls), where(cls.__dict__['cdim'].fget)
        yield cls.__name__ + '._toSLH', t_unary(cls, '_toSLH', keep), where(cls._toSLH)
        yield cls.__name__ + '._creduce', t_unary(cls, '_creduce', keep), where(cls._creduce)
        if '_series_inverse' in cls.__dict__:
            yield cls.__name__ + '._series_inverse', t_unary(cls, '_series_inverse', inv), where(cls._series_inverse)
    yield 'CPermutation._series_inverse', t_unary(Pm, '_series_inverse', inv), where(Pm._series_inverse)
    yield 'CPermutation.create', t_perm_create, where(Pm.create)
    yield 'CPermutation.series_with_permutation', t_perm_pair, where(Pm.series_with_permutation)
    yield 'CPermutation._feedback', t_feedback(Pm._feedback, Pm), where(Pm._feedback)
    yield 'CPermutation._get_blocks', t_perm_blocks, where(Pm._get_blocks)
    yield 'Concatenation._feedback', t_feedback(C._feedback, C), where(C._feedback)
    yield 'Concatenation._block_structure', t_structure, where(C.__dict__['_block_structure'].fget)
    yield 'Concatenation._get_blocks', t_blocks, where(C._get_blocks)
    yield 'Circuit.feedback', t_feedback_default(X.feedback), where(X.feedback)
    yield 'Circuit._feedback', t_feedback(X._feedback, None), where(X._feedback)
    yield 'FB', t_feedback_default(CA.FB), where(CA.FB)
    yield 'Circuit.index_in_block', t_index, where(X.index_in_block)
    yield 'Circuit._block_structure', t_default_structure, where(X.__dict__['_block_structure'].fget)
    yield 'Circuit._get_blocks', t_default_blocks, where(X._get_blocks)
    yield 'Circuit.get_blocks', t_get_blocks, where(X.get_blocks)
    yield 'Circuit.__lshift__', lin(X.__lshift__, '<<'), where(X.__lshift__)
    yield 'Circuit.__add__', lin(X.__add__, '+'), where(X.__add__)
    yield 'Feedback.create', t_create_feedback, where(F.create)
    yield 'SeriesInverse.create', t_create_inverse, where(V.create)
    yield 'circuit_identity', t_identity, where(CA.circuit_identity)
    yield 'extract_channel', t_extract, where(CA.extract_channel)
    yield 'map_channels', t_map, where(CA.map_channels)
    yield 'pad_with_identity', t_pad, where(CA.pad_with_identity)
    yield '_get_common_block_structure', t_common, where(RULES._get_common_block_structure)


if __name__ == '__main__':
    from pyvc.engine import run_task
    for nm, t, w in tasks():
        if len(sys.argv) > 1 and sys.argv[1] not in nm:
            continue
        r = run_task(nm, t, time_limit=120)
        print('%-45s %-10s %s  paths %d obl %d  %.1fs' % (nm, r.status, r.reason[:250], r.paths, len(r.obligations), r.secs))
        for o in r.failed()[:6]:
            print('   ', o.name, o.detail[:700], '|', o.path)
