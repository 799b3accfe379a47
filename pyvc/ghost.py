"""Ghost values: plain Python objects, runs with declared totals, dictionaries
used as accumulators, rule tables, and loops with a stated invariant.

Everything here is specification-level state.  A ghost value only answers the
operations its contract gives a meaning to; anything else is outside the
subset."""
import types

import z3

from . import nc
from .nc import P, ONE, ZERO
from .engine import (Sym, Seq, Seg, MSeg, Elem, SInt, SBool, SDict, BoundMethod, Unsupported, PyRaise, Infeasible, PathEnd, Obligation,
                     SymStr)

ZS = z3.SetSort(z3.IntSort())
EMPTY = z3.EmptySet(z3.IntSort())


class Ghost(Sym):
    def g_getattr(self, D, I, name):
        raise Unsupported('attribute %s of %s' % (name, type(self).__name__))

    def g_setattr(self, D, I, name, v):
        raise Unsupported('assignment to attribute %s of %s' % (name, type(self).__name__))

    def g_call(self, D, I, args, kwargs):
        raise Unsupported('call of %s' % type(self).__name__)

    def g_truth(self, D, I):
        return D.unknown_bool(I, 'truth of %s' % type(self).__name__)

    def g_compare(self, D, I, name, a, b):
        raise Unsupported('comparison of %s' % type(self).__name__)

    def g_iter(self, D, I):
        raise Unsupported('iteration over %s' % type(self).__name__)

    def g_kwargs(self, D, I):
        raise Unsupported('** of %s' % type(self).__name__)

    def g_method(self, D, I, name, args, kwargs):
        raise Unsupported('method %s of %s' % (name, type(self).__name__))

    def g_equal(self, D, I, other):
        return D.unknown_bool(I, 'equality of %s' % type(self).__name__)

    def g_none(self, D, I):
        return False


class Opq(Ghost):
    """a value about which nothing is known (an order key, say)"""

    def __init__(self, why):
        self.why = why

    def g_compare(self, D, I, name, a, b):
        return D.unknown_bool(I, 'order')


class Plain(Ghost):
    """an instance of an ordinary class, executed symbolically"""

    def __init__(self, cls):
        self.cls = cls
        self.fields = {}

    def g_getattr(self, D, I, name):
        if name in self.fields:
            return self.fields[name]
        if name == '__class__':
            return self.cls
        for k in self.cls.__mro__:
            if name in k.__dict__:
                v = k.__dict__[name]
                if isinstance(v, property):
                    return I.call_python(v.fget, [self], {})
                if isinstance(v, types.FunctionType):
                    return BoundMethod(self, name, v)
                return v
        raise PyRaise(AttributeError, name)

    def g_setattr(self, D, I, name, v):
        D.ctx.set_attr(self, 'fields', dict(self.fields, **{name: v}))

    def g_method(self, D, I, name, args, kwargs):
        for k in self.cls.__mro__:
            if name in k.__dict__:
                return I.call_python(k.__dict__[name], [self] + list(args), kwargs)
        raise PyRaise(AttributeError, name)

    def g_compare(self, D, I, name, a, b):
        m, x, y = ('__lt__', a, b) if name == '<' else ('__lt__', b, a) if name == '>' else (None, None, None)
        if m is None or not isinstance(x, Plain):
            raise Unsupported('comparison %s of objects' % name)
        return x.g_method(D, I, m, [y], {})


def new_plain(D, I, cls, args, kwargs):
    o = Plain(cls)
    for k in cls.__mro__:
        if '__init__' in k.__dict__:
            if k is object:
                break
            I.call_python(k.__dict__['__init__'], [o] + list(args), kwargs)
            break
    return o


# ---------------------------------------------------------------------------
# runs with declared totals

class TotSeg(Seg):
    """a run of values v with declared folds: proj[op](v) folded with op is
    tot[op]; union of hs(v) is contained in hset_c"""

    def __init__(self, name, make, proj, tot, hs=None, hset=None, n=None):
        Seg.__init__(self, name, lambda ctx, seg: make(name + '.e'), n=n)
        self.make, self.proj, self.tot, self.hs = make, proj, tot, hs
        self.hset_c = hset if hset is not None else z3.Const('H_' + name, ZS)
        self.kind = 'tuple'

    def reversed(self):
        raise Unsupported('reversed ghost run')


def _fresh_den(D, p, name):
    """a fresh denotation of the same sort as p"""
    for (m, w) in p.t:
        if w:
            s = nc.LETTERS[w[0]].sort
            return nc.letter(name, s, support=None)
    return nc.var(name)


def tot_uncons(D, I, seg, end):
    nm = D.ctx.fresh(seg.name)
    v = seg.make(nm + '.v')
    n = seg.n - 1
    tots = {}
    h = z3.Const('H_%s.rest' % nm, ZS)
    for op, t in seg.tot.items():
        pv = seg.proj[op](v)
        if op == 'sum':
            tots[op] = t - pv
            continue
        sort = _sort(t) or _sort(pv)
        r = nc.var(nm + '.rest') if sort == 'scalar' else nc.letter(nm + '.rest', sort, support=h)
        D.bind(t, pv * r if end == 0 else r * pv)
        tots[op] = r
    if seg.hs is not None:
        D.ctx.assume(seg.hset_c == z3.SetUnion(seg.hs(v), h))
    return v, [TotSeg(nm + '.rest', seg.make, seg.proj, tots, seg.hs, h, n)]


def _sort(p):
    for (m, w) in p.t:
        if w:
            return nc.LETTERS[w[0]].sort
    return 'scalar'


def cut_seg(D, seg, t):
    """(left, right) parts of a run cut after t elements"""
    nm = D.ctx.fresh(seg.name)
    nl, nr = t, seg.n - t
    if isinstance(seg, TotSeg):
        hl, hr = z3.Const('H_%s.l' % nm, ZS), z3.Const('H_%s.r' % nm, ZS)
        D.ctx.assume(seg.hset_c == z3.SetUnion(hl, hr))
        tl, tr = {}, {}
        for op, p in seg.tot.items():
            s = _sort(p) if not seg_sort(seg) else seg_sort(seg)
            mk = (lambda x, h: nc.var(x)) if s == 'scalar' else (lambda x, h: nc.letter(x, s, support=h))
            tl[op], tr[op] = mk(nm + '.l' + op, hl), mk(nm + '.r' + op, hr)
            D.bind(p, tl[op] + tr[op] if op == 'sum' else tl[op] * tr[op])
        return (TotSeg(nm + '.l', seg.make, seg.proj, tl, seg.hs, hl, nl),
                TotSeg(nm + '.r', seg.make, seg.proj, tr, seg.hs, hr, nr))
    if isinstance(seg, MSeg) or seg.rev or seg.kind not in ('op', 'ket', 'sop', 'scalar', 'native'):
        raise Unsupported('cutting a run of %s' % getattr(seg, 'kind', 'computed values'))
    k = 'scalar' if seg.kind == 'native' else seg.kind
    a = D.make_seg(nm + '.l', seg.kind, seg.cands, n=nl)
    b = D.make_seg(nm + '.r', seg.kind, seg.cands, n=nr)
    if k != 'scalar':
        D.ctx.assume(D.seg_hset(seg) == z3.SetUnion(D.seg_hset(a), D.seg_hset(b)))
    D.bind(D.seg_letter(seg, 'sum', k), D.seg_letter(a, 'sum', k) + D.seg_letter(b, 'sum', k))
    D.bind(D.seg_letter(seg, 'prod', k), D.seg_letter(a, 'prod', k) * D.seg_letter(b, 'prod', k))
    return a, b


def seg_sort(seg):
    return getattr(seg, 'tsort', None)


def cut(D, I, seq, t):
    """(left, right) lists of chunks of a sequence cut at position t"""
    if isinstance(t, int):
        t = z3.IntVal(t)
    key = tuple(id(c) for c in seq.chunks)
    for k, s, (a, b) in D.cuts.get(key, []):
        if D.entails_cached(s == t):
            return a, b
    n = I.seq_len(seq)
    n = n.t if isinstance(n, SInt) else z3.IntVal(n)
    if D.entails_cached(t == n):
        r = (list(seq.chunks), [])
    elif D.entails_cached(t == 0):
        r = ([], list(seq.chunks))
    elif len(seq.chunks) == 1 and not isinstance(seq.chunks[0], Elem):
        if not D.entails_cached(z3.And(t >= 0, t <= n)):
            raise Unsupported('slice bound not known to be in range')
        a, b = cut_seg(D, seq.chunks[0], t)
        r = ([a], [b])
    else:
        raise Unsupported('cut of a composite sequence')
    D.ctx.set_item(D.cuts, key, D.cuts.get(key, []) + [(seq, t, r)])
    return r


def seq_split_at(D, I, seq, lo, hi):
    z = lambda x: x.t if isinstance(x, SInt) else z3.IntVal(x)
    if lo not in (None, 0) and hi is not None:
        raise Unsupported('slice form')
    t = hi if lo in (None, 0) else lo
    if not isinstance(t, (int, SInt)):
        raise Unsupported('slice bound %r' % (t,))
    a, b = cut(D, I, seq, z(t))
    return I._norm(Seq(a if lo in (None, 0) else b, seq.kind))


def seq_index(D, I, seq, i):
    t = z3.simplify(i.t + 1)
    if not D.entails_cached(i.t >= 0):
        raise Unsupported('index not known to be in range')
    a, b = cut(D, I, seq, t)
    v, rest = I.seq_pop(Seq(a, 'list'), -1)
    key = tuple(id(c) for c in seq.chunks)
    D.ctx.set_item(D.cuts, key, D.cuts.get(key, []) + [(seq, i.t, (list(rest.chunks), [Elem(v)] + list(b)))])
    return v


def seq_method(D, I, o, name, args, kwargs):
    if o.kind == 'list' and name == 'insert' and isinstance(args[0], (SInt, int)):
        t = args[0].t if isinstance(args[0], SInt) else z3.IntVal(args[0])
        a, b = cut(D, I, o, t)
        D.ctx.set_attr(o, 'chunks', list(a) + [Elem(args[1])] + list(b))
        return None
    return NotImplemented


def fold_by(D, seq, op, proj, sort):
    """fold of proj over a list of tuples"""
    r = ZERO if op == 'sum' else ONE
    for c in seq.chunks:
        if isinstance(c, Elem):
            d = proj(c.v)
        elif isinstance(c, TotSeg):
            d = c.tot[op]
        else:
            raise Unsupported('fold of a computed run')
        r = r + d if op == 'sum' else r * d
    return r


# ---------------------------------------------------------------------------
# concatenation of the images of a run

class FlatSeg(Seg):
    """the concatenation of the sequences f(e), e in a run"""

    def __init__(self, name, mseg):
        Seg.__init__(self, name, None)
        self.mseg = mseg
        self.kind = mseg.base.kind
        self.hset_c = None

    def reversed(self):
        raise Unsupported('reversed concatenation')

    def fold(self, D, op):
        m = self.mseg
        mm = MSeg(m.base, None, list(m.results), rev=m.rev)

        def run():
            k, v = m.run()
            if k == 'drop':
                return k, v
            d = D.fold(D.I.to_seq(v), op)
            return 'keep', D.result(m.base.kind if m.base.kind != 'native' else 'scalar', d)
        mm.run = run
        return D.fold_mseg(mm, op)


# ---------------------------------------------------------------------------
# dictionaries as accumulators: the ghost total is the sum of value*key

class Acc:
    def __init__(self, total, sort=None, known=()):
        self.total, self.sort, self.known = total, sort, tuple(known)


def acc_of(D, d):
    """turn a dictionary with concrete entries into an accumulator"""
    tot, sort = ZERO, None
    for k, v in d.items:
        o = D.lift(k)
        tot = tot + D.den_of(v) * o.den
        sort = o.sort
    return Acc(tot, sort)


def _cur(D, d, key, present):
    """the value stored for a key (None: absent)"""
    o = D.lift(key)
    if o is None or o.den is None:
        raise Unsupported('dictionary key %r' % (key,))
    for k, v in d.acc.known:
        if k is o or D.norm(k.den - o.den).is_zero():
            return v
    if present is None:
        present = bool(D.ctx.choose(2, 'key present') == 0)
    v = D.result('scalar', nc.var(D.ctx.fresh('@old')), EMPTY, D.anyscalar()) if present else None
    D.ctx.set_attr(d, 'acc', Acc(d.acc.total, d.acc.sort or o.sort, d.acc.known + ((o, v),)))
    return v


def dict_contains(D, I, d, x):
    return _cur(D, d, x, None) is not None


def dict_get(D, I, d, x):
    v = _cur(D, d, x, None)
    if v is None:
        raise PyRaise(KeyError, 'key')
    return v


def dict_set(D, I, d, x, v):
    old = _cur(D, d, x, None)
    o = D.lift(x)
    new = D.lift(v)
    if new is None or new.den is None:
        raise Unsupported('dictionary value %r' % (v,))
    t = d.acc.total + (new.den - (old.den if old is not None else ZERO)) * o.den
    D.ctx.set_attr(d, 'acc', Acc(D.norm(t), o.sort, ((o, new),)))
    return True


def dict_run(D, d, what):
    """the (key, value) pairs of an accumulator"""
    s = d.acc.sort
    nm = D.ctx.fresh('items')

    def make(n):
        k = D.fresh_sort(n + '.key', s if s in ('op', 'ket', 'sop') else 'scalar')
        v = D.fresh_sort(n + '.val', 'scalar', D.anyscalar())
        return (k, v)
    proj = {'sum': lambda kv: kv[1].den * kv[0].den}
    t = TotSeg(nm, make, proj, {'sum': d.acc.total}, lambda kv: kv[0].hset)
    t.tsort = s
    return Seq([t], 'list')


def dict_method(D, I, d, name, args, kwargs):
    if d.acc.sort is None:
        return [] if name in ('items', 'keys', 'values') else NotImplemented
    if name == 'items':
        return dict_run(D, d, name)
    if name == 'get':
        v = _cur(D, d, args[0], None)
        return v if v is not None else args[1] if len(args) > 1 else None
    raise Unsupported('dictionary method %s' % name)


# ---------------------------------------------------------------------------
# loops with a stated invariant

LOOPS = {}          # id(loop node) -> spec


def loop_nodes(func):
    import ast
    from .source import node_of
    return [n for n in ast.walk(node_of(func)) if isinstance(n, (ast.For, ast.While))]


class LoopSpec:
    """enter(D, I, env, it): obligations that establish the invariant, and
    returns the ghost state; havoc(g): an arbitrary state satisfying it;
    keep(g): obligations that re-establish it after an iteration;
    leave(g): the state after the loop"""

    def run(self, D, I, s, env, it):
        import ast
        from .engine import _Break, _Continue
        ctx = D.ctx
        g = self.enter(D, I, env, it)
        n = 2 if isinstance(s, ast.While) or len(it.chunks) == 1 else None
        if n is None:
            raise Unsupported('loop over a composite sequence')
        if ctx.choose(2, 'loop: exit or iteration') == 0:
            self.leave(D, I, env, g, it)
            if isinstance(s, ast.While) and I.truth(I.eval(s.test, env)):
                raise Infeasible()
            return
        self.havoc(D, I, env, g, it)
        if isinstance(s, ast.While):
            if not I.truth(I.eval(s.test, env)):
                raise Infeasible()
        else:
            c = it.chunks[0]
            v = c.v if isinstance(c, Elem) else c.gen(ctx, c)
            self.element(D, I, env, g, v)
            I.assign(s.target, v, env)
        try:
            I.exec_block(s.body, env)
        except _Continue:
            pass
        except _Break:
            raise Unsupported('break in a loop with an invariant')
        self.keep(D, I, env, g, it)
        raise PathEnd()

    def element(self, D, I, env, g, v):
        pass


