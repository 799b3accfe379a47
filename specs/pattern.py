"""Contracts of pattern matching (C16).

An arbitrary assignment of values to the wildcard names is fixed (constants and
functions below), so that an obligation holds for every assignment.
  ext      every entry of a match agrees with the assignment
  SATX(p, e)  e is an instance of p under the assignment: p equals e; or p is a
           pattern, its class restriction, its conditions, its (keyword) argument
           patterns hold for the parts of e, and its name is assigned e. For a
           sequence wildcard: all this except for its own name.
Contract of match and match_pattern, both ways:
  SATX(p, e)  <=>  the match is successful and agrees with the assignment
(soundness from left to right for the assignment that the match itself is, and a
failure means that no assignment makes e an instance of p). Sequences of arguments
are slices of the argument list: the name of the sequence wildcard is assigned
the slice that is left over by the other patterns.

Assumed: the name of a sequence wildcard does not occur inside its own pattern,
keyword patterns are no sequences, equality of patterns is reflexive, conditions are functions of the value."""
import ast
import importlib
from pyvc import live   # noqa: F401
import z3
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, Term, Obj, Loop
from pyvc.engine import PyRaise, BoundMethod, Unsupported, Infeasible, SymStr, PathEnd, SDict
from pyvc.domain import Sym
from pyvc.source import where, unwrap

PM = importlib.import_module('qnet.algebra.pattern_matching')
P, MDC = PM.Pattern, PM.MatchDict
VAL = z3.DeclareSort('Value')
NAME = z3.DeclareSort('WcName')
Fn, Z, B = z3.Function, z3.IntSort(), z3.BoolSort()
T, F = z3.BoolVal(True), z3.BoolVal(False)
ISPAT = Fn('is_pattern', VAL, B)
MODE = Fn('mode', VAL, Z)
ANON = Fn('has_no_name', VAL, B)
NM = Fn('wc_name', VAL, NAME)
SATX = Fn('instance_of', VAL, VAL, B)
SG = Fn('assigned', NAME, VAL)
SLICE = Fn('assigned_is_slice', NAME, Z, Z, B)
EMPTY = Fn('assigned_is_empty', NAME, B)
EQP = Fn('pattern_equal', VAL, VAL, B)
HASARGS, HASKW, HASKEY, KWV = Fn('has_args', VAL, B), Fn('has_kwargs', VAL, B), Fn('has_kwarg', VAL, NAME, B), Fn('kwarg', VAL, NAME, VAL)
HEAD, COND, RAISES = Fn('is_instance', VAL, B), Fn('meets', VAL, VAL, B), Fn('does_not_apply', VAL, VAL, B)


class Name(Sym):
    """a wildcard name, or None"""

    def __init__(self, anon, t):
        self.anon, self.t = anon, t


class OptPat(Sym):
    """a pattern, or None"""

    def __init__(self, none, t):
        self.none, self.t = none, t


class MD(Sym):
    """a MatchDict"""

    def __init__(self, ext=T, succ=True):
        self.ext, self.succ, self.merge, self.reason = ext, succ, 0, ''
        self.has, self.lo, self.hi = F, z3.IntVal(0), z3.IntVal(0)      # the sequence entry
        self.own = None            # entry of a sequence pattern for itself
        self.of = None             # (pattern, index of the argument)


class Entry(Sym):
    """value of an entry of a match"""

    def __init__(self, m, i):
        self.m, self.i = m, i


class Stream(Sym):
    def __init__(self, pos):
        self.pos = pos


class KWs(Sym):
    def __init__(self, n, key, val):
        self.n, self.key, self.val = n, key, val


class Head(Sym):
    pass


def tt(x):
    if isinstance(x, Term):
        return x.t
    if isinstance(x, Obj) and 't' in x.fields:
        return x.fields['t'].t
    raise Unsupported('value of %r' % (x,))


class PInterp(od.OInterp):
    expected = None

    def call(self, f, args, kwargs):
        if getattr(f, '__name__', '') == 'format' and isinstance(getattr(f, '__self__', None), str):
            return SymStr()
        return super().call(f, args, kwargs)

    def e_Yield(self, e, env):
        if self.expected is None:
            return super().e_Yield(e, env)
        v = self.eval(e.value, env)
        self.expected(v)

    def e_JoinedStr(self, e, env):
        return SymStr()


class PDomain(od.ODomain):
    def __init__(self, ctx):
        super().__init__(ctx)
        ctx.solver.set('mbqi', False)
        self.retry = True
        self.classes[MDC] = lambda D, I, a, kw: self.new_md(a, kw)
        self.contracts[repr] = lambda D, I, a, kw: SymStr()
        self.contracts[str] = lambda D, I, a, kw: SymStr()
        self.contracts[unwrap(P._repr_head)] = lambda D, I, a, kw: SymStr()
        self.contracts[unwrap(PM.match_pattern)] = self.c_match_pattern
        self.contracts[unwrap(P.extended_arg_patterns)] = self.c_stream
        self.contracts[unwrap(P._check_last_arg_pattern)] = self.c_check_last
        self.mds = []
        x, w, i, j = z3.Const('x!', VAL), z3.Const('w!', NAME), z3.Int('i!'), z3.Int('j!')
        # the empty slice, wherever it is
        ctx.assume(z3.ForAll([w, i, j], z3.Implies(i == j, SLICE(w, i, j) == EMPTY(w)), patterns=[SLICE(w, i, j)]))
        ctx.assume(z3.ForAll([x], z3.Implies(ISPAT(x), z3.And(MODE(x) >= 1, MODE(x) <= 3)), patterns=[MODE(x)]))

    def new_md(self, a, kw):
        if a or kw:
            raise Unsupported('MatchDict with entries')
        m = MD()
        self.mds.append(m)
        return m

    # ---------------------------------------------------- contracts
    def nonsingle(self, t):
        return z3.And(ISPAT(t), MODE(t) > 1)

    def c_match_pattern(self, D, I, a, kw):
        p, e = tt(a[0]), tt(a[1])
        m = MD()
        s = z3.Bool(self.ctx.fresh('success'))
        m.succ = SBool(s)
        m.ext = z3.Bool(self.ctx.fresh('agrees'))
        m.of = (p, a[1])
        self.fact(SATX(p, e) == z3.And(s, m.ext))
        return m

    def c_stream(self, D, I, a, kw):
        self.stream = Stream(z3.IntVal(0))
        return self.stream

    def c_check_last(self, D, I, a, kw):
        cur, last = a[-2], tt(a[-1])
        eq = EQP(last, cur.t)
        if isinstance(cur, OptPat):
            eq = z3.And(z3.Not(cur.none), eq)
            # equal patterns have the same mode; equality is reflexive
            self.fact(z3.Implies(EQP(last, cur.t), z3.And(ISPAT(cur.t), MODE(cur.t) == MODE(last))))
            self.fact(z3.Implies(last == cur.t, EQP(last, cur.t)))
        b = lambda f, w: self.ctx.branch(f, w)
        if not b(self.nonsingle(last), 'last pattern is a sequence'):
            raise PyRaise(ValueError, 'insufficient')
        if b(MODE(last) == 2, 'one or more'):
            if not b(eq, 'same pattern'):
                raise PyRaise(ValueError, 'insufficient')
            return EmptyEntry(None)
        if b(z3.And(z3.Not(eq), z3.Not(ANON(last))), 'empty match'):
            return EmptyEntry(NM(last))
        return EmptyEntry(None)

    # ---------------------------------------------------- attributes
    def attr_or_error(self, cond, name):
        if not self.ctx.branch(cond, name):
            raise PyRaise(AttributeError, name)

    def term_attr(self, I, o, name):
        if name in ('mode', 'wc_name'):
            self.attr_or_error(ISPAT(o.t), 'is a pattern')
            return SInt(MODE(o.t)) if name == 'mode' else Name(ANON(o.t), NM(o.t))
        if name in ('single', 'one_or_more', 'zero_or_more'):
            return getattr(P, name)
        if name == 'args':
            self.attr_or_error(HASARGS(o.t), 'has args')
            return self.args_of(o)
        if name == 'kwargs':
            self.attr_or_error(HASKW(o.t), 'has kwargs')
            return KwOf(o)
        if name == 'match':
            return BoundMethod(o, 'match')
        return super().term_attr(I, o, name)

    def getattr(self, I, o, name):
        if isinstance(o, MD):
            if name == 'success':
                return o.succ
            if name == 'merge_lists':
                return o.merge
            if name == 'reason':
                return SymStr()
            return BoundMethod(o, name)
        if isinstance(o, EmptyEntry):
            if name == 'items':
                return BoundMethod(o, name)
            raise PyRaise(AttributeError, name)
        if isinstance(o, KWs):
            return BoundMethod(o, name)
        return super().getattr(I, o, name)

    def setattr(self, I, o, name, v):
        if isinstance(o, MD):
            f = {'success': 'succ', 'merge_lists': 'merge', 'reason': 'reason'}.get(name)
            if f is None:
                raise Unsupported('attribute %s' % name)
            self.ctx.set_attr(o, f, v)
            return
        return super().setattr(I, o, name, v)

    def term_isinstance(self, I, o, c):
        if c is P:
            return SBool(ISPAT(o.t))
        if c is list:
            return False
        return super().term_isinstance(I, o, c)

    def isinstance(self, I, o, c):
        if isinstance(c, Head):
            return SBool(HEAD(tt(o)))
        return super().isinstance(I, o, c)

    def is_none(self, I, o):
        if isinstance(o, Name):
            return SBool(o.anon)
        if isinstance(o, OptPat):
            return SBool(o.none)
        return super().is_none(I, o)

    def is_(self, I, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Name, OptPat)) and y is None:
                return self.is_none(I, x)
        return super().is_(I, a, b)

    def equal(self, I, a, b):
        if isinstance(a, Name) and isinstance(b, Name):
            return SBool(z3.Or(z3.And(a.anon, b.anon), z3.And(z3.Not(a.anon), z3.Not(b.anon), a.t == b.t)))
        if isinstance(a, Name) or isinstance(b, Name):
            return False
        if isinstance(a, Term) and isinstance(b, Term):
            return self.value_eq(a, b)
        return super().equal(I, a, b)

    def value_eq(self, a, b):
        return SBool(a.t == b.t)

    def contains(self, I, c, x):
        if isinstance(c, SymStr):
            return self.unknown_bool(I, 'text of a message')
        return super().contains(I, c, x)

    def truth(self, I, v):
        if isinstance(v, MD):
            return I.truth(v.succ)
        if isinstance(v, (SymStr, KWs)):
            return self.ctx.branch(z3.Bool(self.ctx.fresh('nonempty')), 'nonempty')
        return super().truth(I, v)

    # ---------------------------------------------------- entries
    def getitem(self, I, o, i):
        if isinstance(o, KwOf):
            e = o.e.t
            if not self.ctx.branch(HASKEY(e, i.t), 'has keyword argument'):
                raise PyRaise(KeyError, 'key')
            return Term(KWV(e, i.t), tag='part')
        return super().getitem(I, o, i)

    def setitem(self, I, d, key, v):
        if not isinstance(d, MD) or not isinstance(key, Name):
            raise Unsupported('item of %r' % (d,))
        self.given('the name of an entry is no None', z3.Not(key.anon))
        if isinstance(v, list) and len(v) == 1 and isinstance(v[0], Term):
            # a sequence pattern: its name is not in the match (assumption)
            self.ctx.set_attr(d, 'own', (key.t, v[0].t))
            return
        if isinstance(v, Entry):
            m, i = v.m, v.i
            if self.ctx.branch(z3.And(m.haswc, i == m.at), 'own entry'):
                return self.merge(I, d, key, m.idx, m.idx + 1)
            self.conflict(d, m.agree(i))
            return
        if isinstance(v, Term):
            self.conflict(d, SG(key.t) == v.t)
            return
        raise Unsupported('value %r' % (v,))

    def conflict(self, d, agrees):
        """one more entry that agrees with the assignment or not; if the name
        has another value, they do not both agree"""
        if self.ctx.choose(2, 'name has another value'):
            self.ctx.assume(z3.Not(z3.And(d.ext, agrees)))
            raise PyRaise(KeyError, 'has already been set')
        self.ctx.set_attr(d, 'ext', z3.And(d.ext, agrees))

    def merge(self, I, d, key, lo, hi):
        """contract of MatchDict.__setitem__ for lists"""
        self.prove('sequences are collected under the name of the sequence wildcard', key.t == self.seqname)
        has = self.ctx.branch(d.has, 'sequence has begun')
        if not has:
            new = (lo, hi)
        elif I.truth(I.compare(ast.Lt, d.merge, 0)):
            self.prove('the sequence goes on with the next argument', d.hi == lo)
            new = (d.lo, hi)
        elif I.truth(I.compare(ast.Gt, d.merge, 0)):
            self.prove('the sequence goes on with the argument before', hi == d.lo)
            new = (lo, d.hi)
        else:
            if self.ctx.choose(2, 'name has another value'):
                raise PyRaise(KeyError, 'has already been set')
            self.ctx.assume(z3.And(lo == d.lo, hi == d.hi))
            new = (lo, hi)
        for k, v in (('has', T), ('lo', new[0]), ('hi', new[1])):
            self.ctx.set_attr(d, k, v)

    def call_method(self, I, m, args, kwargs):
        o = m.obj
        if isinstance(o, MD) and m.name == 'update':
            for x in args:
                self.update(o, x)
            return None
        if isinstance(o, MD) and m.name == 'items':
            return self.items(o)
        if isinstance(o, KWs) and m.name == 'items':
            return FL(o.n, lambda i: (Name(F, o.key(zi(i))), Term(o.val(zi(i)), tag='part')), 'list')
        return super().call_method(I, m, args, kwargs)

    def update(self, d, x):
        """contract of MatchDict.update"""
        if isinstance(x, EmptyEntry):
            if x.name is not None:
                self.conflict(d, self.empty(x.name))
            return
        if not isinstance(x, MD):
            raise Unsupported('update with %r' % (x,))
        ag = z3.And(x.ext, z3.Implies(x.has, SLICE(self.seqname, x.lo, x.hi)))
        if x.own is not None:
            raise Unsupported('update with a sequence')
        self.conflict(d, ag)
        self.ctx.set_attr(d, 'succ', SBool(z3.And(self.b(d.succ), self.b(x.succ))))

    def b(self, v):
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def empty(self, name):
        return EMPTY(name)

    def items(self, m):
        """the entries: the one of the sequence pattern itself, and those of its parts"""
        c = self.ctx
        p, e = m.of
        n, m.at = z3.Int(c.fresh('n')), z3.Int(c.fresh('own'))
        key = Fn(c.fresh('key'), Z, NAME)
        m.agree = Fn(c.fresh('agr'), Z, B)
        m.pre = Fn(c.fresh('agreeing'), Z, B)
        m.haswc = z3.Not(ANON(p))
        m.idx = self.index_of(e)
        i = z3.Int(c.fresh('i'))
        inr = z3.And(i >= 0, i < n)
        c.assume(z3.And(n >= 0, m.pre(0), m.pre(n) == m.ext, z3.Implies(m.haswc, z3.And(m.at >= 0, m.at < n))))
        c.assume(z3.ForAll([i], z3.Implies(inr, z3.And(
            z3.And(m.haswc, key(i) == NM(p)) == z3.And(m.haswc, i == m.at),
            m.pre(i + 1) == z3.And(m.pre(i), z3.Or(z3.And(m.haswc, i == m.at), m.agree(i))))), patterns=[key(i)]))
        # a conjunction that holds for all holds for the first ones
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= n, m.pre(n)), m.pre(i)), patterns=[m.pre(i)]))
        self.snap = (m, [(d, d.ext, d.has, d.lo, d.hi) for d in self.mds])
        return FL(n, lambda j: (Name(F, key(zi(j))), Entry(m, zi(j))), 'list')

    # ---------------------------------------------------- loops
    def havoc(self, I, env, sp, names, mut):
        for nm in sorted(names | mut):
            try:
                old = I.lookup(nm, env)
            except PyRaise:
                continue
            if isinstance(old, MD):
                c = self.ctx
                if old not in self.mds:
                    I.bind(nm, Unknown(nm), env)
                    continue
                if nm in names:
                    raise Unsupported('match %s assigned in a loop' % nm)
                for k, v in (('ext', z3.Bool(c.fresh('ext'))), ('has', z3.Bool(c.fresh('has'))), ('lo', z3.Int(c.fresh('lo'))),
                             ('hi', z3.Int(c.fresh('hi'))), ('succ', SBool(z3.Bool(c.fresh('succ'))))):
                    c.set_attr(old, k, v)
                continue
            if nm in sp.shapes:
                I.bind(nm, sp.shapes[nm](self, old), env)
            elif isinstance(old, Obj) and nm not in names:
                continue           # changed by its methods: their contracts
            elif isinstance(old, (SInt, int, SBool)):
                I.bind(nm, self.like(nm, old), env)
            else:
                I.bind(nm, Unknown(nm), env)
        if sp.ghost == 'stream':
            self.ctx.set_attr(self.stream, 'pos', z3.Int(self.ctx.fresh('pos')))

    def call_value(self, I, f, args, kwargs):
        if isinstance(f, Term) and len(args) == 1:
            e = tt(args[0])
            if self.ctx.branch(RAISES(f.t, e), 'condition does not apply'):
                raise PyRaise(AttributeError, 'condition')
            return SBool(COND(f.t, e))
        return super().call_value(I, f, args, kwargs)


class EmptyEntry(Sym):
    """a dictionary: empty, or an empty list for one name"""

    def __init__(self, name):
        self.name = name


class KwOf(Sym):
    def __init__(self, e):
        self.e = e


class Unknown(Sym):
    def __init__(self, nm):
        self.nm = nm


def setup(ctx, loops=None):
    D = PDomain(ctx)
    I = PInterp(ctx, D)
    D.attach(I)
    for (f, k), sp in (loops or {}).items():
        ns = od.loops_of(f)
        if k < len(ns):
            D.loops[id(ns[k])] = sp
    return D, I


def c_next(D, I, a, kw):
    s = a[0]
    if not isinstance(s, Stream):
        return od._next(D, I, a, kw)
    n = D.n
    if not D.ctx.branch(z3.Or(s.pos < n, z3.And(D.ns, n > 0)), 'another pattern'):
        raise PyRaise(StopIteration, '')
    v = Term(D.qat(s.pos), tag='pattern')
    D.ctx.set_attr(s, 'pos', s.pos + 1)
    return v


def t_match(how, withkw):
    def t(ctx):
        run_match(ctx, how, withkw)
    return t


def run_match(ctx, how, withkw):
    cfg = {}

    def inv_cond(st):
        return [('conditions so far', cfg['CP'](st.k))]

    def slice_at(D, k):
        n, N = D.n, D.N
        return (N - k, N - (n - 1)) if D.left else (n - 1, k)

    def inv_args(st):
        D, k = st.D, st.k
        res, seq = st['res'], st['sequence']
        lo, hi = slice_at(D, k)
        has = z3.And(D.ns, z3.Not(ANON(D.qlast)), k > D.n - 1)
        cur = st['current_arg_pattern']
        if cur is None:
            cur = OptPat(T, D.qlast)
        elif isinstance(cur, Term):
            cur = OptPat(F, cur.t)
        return [('successful', D.b(res.succ)), ('agreement', res.ext == D.OKP(k)), ('no sequence in the result', z3.Not(res.has)),
                ('pattern position', D.stream.pos == k), ('a pattern for every argument', z3.Or(k <= D.n, z3.And(D.ns, D.n > 0))),
                ('sequence begun', seq.has == has), ('sequence in order', z3.Implies(has, z3.And(seq.lo == lo, seq.hi == hi))),
                ('sequence has no other entries', z3.And(seq.ext, D.b(seq.succ))),
                ('current pattern', z3.And(cur.none == (k == 0), z3.Implies(k > 0, cur.t == D.qat(k - 1))))]

    def inv_items(st):
        D, k = st.D, st.k
        m, snap = D.snap
        res, seq = st['res'], st['sequence']
        old = {id(d): x for d, *x in snap}
        done = z3.And(m.haswc, m.at < k)
        e0, h0, l0, u0 = old[id(seq)]
        i = m.idx
        if D.left:
            l1, u1 = i, z3.If(h0, u0, i + 1)
        else:
            l1, u1 = z3.If(h0, l0, i), i + 1
        return [('entries so far', res.ext == z3.And(old[id(res)][0], m.pre(k))), ('successful', z3.And(D.b(res.succ), D.b(seq.succ))),
                ('no sequence in the result', z3.Not(res.has)), ('no other entries', seq.ext == e0),
                ('sequence begun', seq.has == z3.Or(h0, done)),
                ('sequence', z3.Implies(seq.has, z3.And(seq.lo == z3.If(done, l1, l0), seq.hi == z3.If(done, u1, u0))))]

    def inv_kw(st):
        D, k = st.D, st.k
        res = st['res']
        return [('successful', D.b(res.succ)), ('agreement', z3.And(res.ext, T) == z3.And(D.ext0, D.KP(k))), ('no sequence', z3.Not(res.has)),
                ('has keyword arguments', z3.Or(k == 0, HASKW(e.t)))]
    optpat = lambda D, old: OptPat(z3.Bool(ctx.fresh('cur_none')), z3.Const(ctx.fresh('cur'), VAL))
    D, I = setup(ctx, {(P.match, 0): Loop(inv_cond), (P.match, 1): Loop(inv_args, {'current_arg_pattern': optpat}, ghost='stream'),
                       (P.match, 2): Loop(inv_items), (P.match, 3): Loop(inv_kw)})
    c = ctx
    D.contracts[next] = c_next
    D.contracts[iter] = lambda D1, I1, a, kw: a[0] if isinstance(a[0], FL) else od._iter(D1, I1, a, kw)
    e = Term(z3.Const('expr', VAL))
    withargs, multi = how is not None, ctx.choose(2, 'sequence wildcard') == 1
    withhead = ctx.choose(2, 'head') == 1
    # ---- arguments and their patterns
    D.n, D.N = z3.Int('npatterns'), z3.Int('nargs')
    q, a = Fn('q', Z, VAL), Fn('a', Z, VAL)
    nc, nk = z3.Int('nconditions'), z3.Int('nkwpatterns')
    c.assume(z3.And(D.n >= 0, D.N >= 0, nc >= 0, nk >= 0))
    D.left = False
    D.ns = F
    if withargs:
        D.left = how == 'left'
        j = z3.Int('j!')
        # class invariant (established by __init__)
        last = q(0) if D.left else q(D.n - 1)
        D.qlast = last
        D.ns = z3.And(D.n > 0, D.nonsingle(last))
        if D.left:
            c.assume(D.ns)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < D.n, D.nonsingle(q(j))), j == (0 if D.left else D.n - 1)), patterns=[q(j)]))
        # a sequence on the left of one pattern only is a sequence on the left
        if not D.left:
            c.assume(z3.Implies(D.n == 1, z3.Not(D.ns)))
    else:
        D.qlast = q(0)

    def qat(k):
        i = z3.If(k < D.n, k, D.n - 1)
        return q(D.n - 1 - i) if D.left else q(i)

    def aat(k):
        return a(D.N - 1 - k) if D.left else a(k)
    D.qat = qat
    D.OKP, D.KP, CP = Fn('args_ok', Z, B), Fn('kwargs_ok', Z, B), Fn('conditions_ok', Z, B)
    cfg['CP'] = CP
    i = z3.Int('i!')
    cond, kwn, kwp = Fn('condition', Z, VAL), Fn('kwname', Z, NAME), Fn('kwpattern', Z, VAL)

    def conj(Pf, n, step):
        c.assume(Pf(0))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), Pf(i + 1) == z3.And(Pf(i), step(i))), patterns=[Pf(i)]))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= n, Pf(n)), Pf(i)), patterns=[Pf(i)]))
    conj(D.OKP, D.N, lambda k: SATX(qat(k), aat(k)))
    conj(CP, nc, lambda k: z3.And(z3.Not(RAISES(cond(k), e.t)), COND(cond(k), e.t)))
    conj(D.KP, nk, lambda k: z3.And(HASKEY(e.t, kwn(k)), SATX(kwp(k), KWV(e.t, kwn(k)))))
    argsok = T
    D.seqname = NM(D.qlast)
    if withargs:
        lo, hi = slice_at(D, D.N)
        argsok = z3.And(HASARGS(e.t), D.OKP(D.N), z3.If(
            D.ns, z3.And(D.N >= D.n - 1 + z3.If(MODE(D.qlast) == 2, 1, 0), z3.Or(ANON(D.qlast), SLICE(D.seqname, lo, hi))), D.N == D.n))
    self = Obj(P, dict(head=Head() if withhead else None, args=FL(D.n, lambda k: Term(q(zi(k)), tag='pattern'), 'tuple') if withargs else None,
                       kwargs=KWs(nk, kwn, kwp) if withkw else None, mode=SInt(z3.Int('mode')), wc_name=Name(z3.Bool('anon'), z3.Const('wcname', NAME)),
                       conditions=FL(nc, lambda k: Term(cond(zi(k))), 'list'), _has_non_single_arg=SBool(D.ns), _non_single_arg_on_left=D.left,
                       _arg_iterator=reversed if D.left else iter))
    mode = z3.Int('mode')
    c.assume(z3.And(mode >= 2, mode <= 3) if multi else mode == 1)

    def args_of(o):
        if o is not e:
            raise Unsupported('arguments of %r' % (o,))
        return FL(D.N, lambda k: Term(a(z3.simplify(zi(k))), tag='argument'), 'tuple')
    D.args_of = args_of

    def index_of(x):
        if x.t.decl().eq(a):
            return x.t.arg(0)
        raise Unsupported('index of %r' % (x,))
    D.index_of = index_of
    anon, name = z3.Bool('anon'), z3.Const('wcname', NAME)
    sat = z3.And(HEAD(e.t) if withhead else T, CP(nc), argsok, z3.And(z3.Or(nk == 0, HASKW(e.t)), D.KP(nk)) if withkw else T,
                 T if multi else z3.Or(anon, SG(name) == e.t))
    # the state before the keyword arguments
    D.ext0 = z3.And(argsok)
    f = unwrap(P.match)
    try:
        r = I.call_python(f, [self, e], {}, P)
    except PyRaise as x:
        D.prove('only conditions that do not apply raise (%s)' % x.exc_type.__name__, z3.And(z3.BoolVal(x.exc_type is AttributeError), z3.Not(sat)))
        return
    if not isinstance(r, MD):
        raise Unsupported('result %r' % (r,))
    s = D.b(r.succ)
    ext = z3.And(r.ext, z3.Implies(r.has, SLICE(D.seqname, r.lo, r.hi)))
    D.prove('a match makes the expression an instance of the pattern', z3.Implies(z3.And(s, ext), sat))
    D.prove('no failure for an instance', z3.Implies(sat, s))
    D.prove('only the values of the instance', z3.Implies(sat, ext))
    if multi:
        own = r.own
        D.prove('a sequence wildcard is bound to a list of the expression', z3.Implies(s, z3.Or(
            anon, z3.And(own[0] == name, own[1] == e.t) if own else F)))
    else:
        D.prove('no list for a single expression', z3.BoolVal(r.own is None))


def t_match_pattern(ctx):
    D, I = setup(ctx)
    f = unwrap(PM.match_pattern)
    del D.contracts[f]
    p, e = Term(z3.Const('p', VAL), tag='pattern'), Term(z3.Const('expr', VAL))
    ctx.assume(z3.Implies(z3.Not(ISPAT(p.t)), SATX(p.t, e.t) == (p.t == e.t)))
    meth = D.call_method

    def call_method(I1, m, args, kwargs):
        if m.obj is p and m.name == 'match':
            if ctx.choose(2, 'does not apply'):
                ctx.assume(z3.Not(SATX(p.t, e.t)))
                raise PyRaise(AttributeError, '')
            D.prove('matches the expression', z3.BoolVal(len(args) == 1 and args[0] is e))
            return D.c_match_pattern(D, I1, [p, e], {})
        return meth(I1, m, args, kwargs)
    D.call_method = call_method
    r = I.call_python(f, [p, e], {})
    if not isinstance(r, MD):
        raise Unsupported('result %r' % (r,))
    D.prove('an instance, exactly if matched', SATX(p.t, e.t) == z3.And(D.b(r.succ), r.ext))


def nonsingle(t):
    return z3.And(ISPAT(t), MODE(t) > 1)


# ------------------------------------------------------------ the patterns of the arguments

def t_stream(left):
    def t(ctx):
        """the k-th value is the pattern of the k-th argument, in order or from the right"""
        n = z3.Int('npatterns')
        q = Fn('q', Z, VAL)
        at = lambda k: q(n - 1 - k) if left else q(k)
        qat = lambda k: at(z3.If(k < n, k, n - 1))
        ns = z3.And(n > 0, nonsingle(at(n - 1)))

        def inv(st):
            return [('as many values', st.D.stream.pos == st.k), ('no sequence so far', z3.Implies(st.k >= n, z3.Not(ns)))]

        def inv_seq(st):
            a = tt(st['arg'])
            return [('the sequence is last', z3.And(nonsingle(a), a == at(n - 1), n > 0, st.D.stream.pos >= n - 1))]
        f = unwrap(P.extended_arg_patterns)
        D, I = setup(ctx, {(f, 0): Loop(inv, ghost='stream'), (f, 1): Loop(inv_seq, ghost='stream')})
        del D.contracts[f]
        D.contracts[iter] = lambda D1, I1, a, kw: a[0] if isinstance(a[0], FL) else od._iter(D1, I1, a, kw)
        D.stream = Stream(z3.IntVal(0))
        j = z3.Int('j!')
        ctx.assume(n >= 0)
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, nonsingle(q(j))), j == (0 if left else n - 1)), patterns=[q(j)]))
        self = Obj(P, dict(args=FL(n, lambda k: Term(q(zi(k)), tag='pattern'), 'tuple'), _arg_iterator=reversed if left else iter))

        def expected(v):
            D.prove('the pattern of this argument', tt(v) == qat(D.stream.pos))
            D.given('there is a pattern for this argument', z3.Or(D.stream.pos < n, ns))
            ctx.set_attr(D.stream, 'pos', D.stream.pos + 1)
        I.expected = expected
        I.call_python(f, [self], {}, P)
        D.prove('ends after the last pattern', z3.And(D.stream.pos == n, z3.Not(ns)))
    return t


def t_check_last(ctx):
    D, I = setup(ctx)
    f = unwrap(P._check_last_arg_pattern)
    del D.contracts[f]
    last = Term(z3.Const('last', VAL), tag='pattern')
    cur = None if ctx.choose(2, 'no argument') else Term(z3.Const('cur', VAL), tag='pattern')
    eq = F if cur is None else EQP(last.t, cur.t)
    D.value_eq = lambda a, b: SBool(EQP(a.t, b.t))
    D.unequal_kinds = lambda I1, a, b: False
    bad = z3.Or(z3.Not(nonsingle(last.t)), z3.And(MODE(last.t) == 2, z3.Not(eq)))
    self = Obj(P, {})
    try:
        r = I.call_python(f, [self, cur, last], {}, P)
    except PyRaise as x:
        D.prove('an error for a missing argument only (%s)' % x.exc_type.__name__, z3.And(z3.BoolVal(x.exc_type is ValueError), bad))
        return
    D.prove('a missing argument is an error', z3.Not(bad))
    if isinstance(r, SDict) and r.acc is None:
        r = dict(r.items)
    if not isinstance(r, dict):
        raise Unsupported('result %r' % (r,))
    some = z3.And(MODE(last.t) == 3, z3.Not(eq), z3.Not(ANON(last.t)))
    if not r:
        D.prove('an empty sequence is recorded', z3.Not(some))
        return
    (k, v), = list(r.items())
    D.prove('the empty sequence of this wildcard', z3.And(some, z3.BoolVal(isinstance(k, Name) and v == []), k.t == NM(last.t)))


def t_eq(ctx):
    """equal patterns have the same mode; a pattern equals itself"""
    D, I = setup(ctx)

    def mk(nm):
        return Obj(P, dict(head=Term(z3.Const(nm + '.head', VAL)), args=Term(z3.Const(nm + '.args', VAL)), kwargs=Term(z3.Const(nm + '.kwargs', VAL)),
                           mode=SInt(z3.Int(nm + '.mode')), wc_name=Term(z3.Const(nm + '.name', VAL)),
                           conditions=Term(z3.Const(nm + '.conditions', VAL))))
    a = mk('a')
    same = ctx.choose(2, 'same') == 1
    b = a if same else mk('b')
    f = unwrap(P.__eq__)
    r = I.call_python(f, [a, b], {}, P)
    t = r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))
    if same:
        D.prove('reflexive', t)
    D.prove('equal patterns have the same mode', z3.Implies(t, a.fields['mode'].t == b.fields['mode'].t))


def t_init(ctx):
    """class invariant: one sequence wildcard, first or last; if it is first, the
    arguments are visited from the right"""
    n = z3.Int('npatterns')
    q = Fn('q', Z, VAL)
    j1, j2 = z3.Int('j1'), z3.Int('j2')

    def inv(st):
        k = st.k
        has = st.D.b(st['self'].fields['_has_non_single_arg'])
        left = st.D.b(st['self'].fields['_non_single_arg_on_left'])
        at = lambda j: z3.And(j >= 0, j < k, nonsingle(q(j)))
        return [('only one sequence', z3.Implies(z3.And(at(j1), at(j2)), j1 == j2)), ('seen', z3.Implies(at(j1), has)), ('seen too', z3.Implies(at(j2), has)),
                ('first or last', z3.Implies(at(j1), z3.Or(j1 == 0, j1 == n - 1))),
                ('on the left', left == z3.And(k > 0, nonsingle(q(0)))),
                ('not seen', z3.Implies(has, z3.Or(z3.And(k > 0, nonsingle(q(0))), z3.And(k == n, n > 0, nonsingle(q(n - 1))))))]
    f = unwrap(P.__init__)
    ns = od.loops_of(f)
    D, I = setup(ctx, {(f, len(ns) - 1): Loop(inv)})
    ctx.assume(n >= 0)
    mode = 1 + ctx.choose(4, 'mode')
    args = FL(n, lambda k: Term(q(zi(k)), tag='pattern'), 'list') if ctx.choose(2, 'args') else None
    head = Head() if ctx.choose(2, 'head') else None
    D.contracts[hasattr] = lambda D1, I1, a, kw: True if isinstance(a[0], Head) else hasattr(*a)
    kwargs, wc = Term(z3.Const('kwargs', VAL)), Name(z3.Bool('anon'), z3.Const('wcname', NAME))
    cs = Term(z3.Const('conditions', VAL)) if ctx.choose(2, 'conditions') else None
    self = Obj(P, {})
    hv = D.havoc

    def havoc(I1, env, sp, names, mut):
        hv(I1, env, sp, names, mut)
        for k in ('_has_non_single_arg', '_non_single_arg_on_left'):
            ctx.set_item(self.fields, k, SBool(z3.Bool(ctx.fresh(k))))
    D.havoc = havoc
    try:
        I.call_python(f, [self, head, args, kwargs], dict(mode=mode, wc_name=wc, conditions=cs), P)
    except PyRaise as x:
        D.prove('an error for invalid patterns only', z3.BoolVal(x.exc_type is ValueError))
        D.prove('a valid mode and at most one argument are valid', z3.Or(z3.BoolVal(mode == 4), n > 1) if args is not None else z3.BoolVal(mode == 4))
        return
    g = self.fields
    D.prove('valid mode', z3.BoolVal(mode < 4))
    D.prove('the parts are kept', z3.BoolVal(g['head'] is head and g['kwargs'] is kwargs and g['mode'] == mode and g['wc_name'] is wc))
    D.prove('the conditions are kept', z3.BoolVal(g['conditions'] is cs if cs is not None else g['conditions'] == []))
    has, left = D.b(g['_has_non_single_arg']), D.b(g['_non_single_arg_on_left'])
    if args is None:
        D.prove('no argument patterns', z3.And(z3.BoolVal(g['args'] is None), z3.Not(has), z3.Not(left)))
        D.prove('in order', z3.BoolVal(g['_arg_iterator'] is iter))
        return
    r = g['args']
    k = z3.Int('k?')
    if not isinstance(r, FL):
        raise Unsupported('arguments %r' % (r,))
    D.prove('the argument patterns are kept', z3.And(zi(r.n) == n, z3.Implies(z3.And(k >= 0, k < n), tt(r.get(k)) == q(k))))
    at = lambda j: z3.And(j >= 0, j < n, nonsingle(q(j)))
    D.prove('one sequence wildcard at most', z3.Implies(z3.And(at(j1), at(j2)), j1 == j2))
    D.prove('first or last', z3.Implies(at(j1), z3.Or(j1 == 0, j1 == n - 1)))
    D.prove('sequence wildcard noted', z3.And(z3.Implies(at(j1), has), z3.Implies(has, z3.And(n > 0, z3.Or(nonsingle(q(0)), nonsingle(q(n - 1)))))))
    D.prove('sequence wildcard on the left noted', left == z3.And(n > 0, nonsingle(q(0))))
    D.prove('from the right exactly if the sequence is on the left', left == z3.BoolVal(g['_arg_iterator'] is reversed))
    D.prove('in order or from the right', z3.BoolVal(g['_arg_iterator'] in (iter, reversed)))


# ------------------------------------------------------------ MatchDict

def t_setitem(ctx):
    D, I = setup(ctx)
    present = ctx.choose(2, 'present') == 1
    val = Fn('cur', Z, VAL), Fn('new', Z, VAL)

    def value(i, nm):
        if ctx.choose(2, nm + ' is a list'):
            n = z3.Int('len_' + nm)
            ctx.assume(n >= 0)
            return FL(n, lambda k: Term(val[i](zi(k))), 'list')
        return Term(z3.Const(nm, VAL))
    cur = value(0, 'old') if present else None
    new = value(1, 'new')
    old = FL(cur.n, cur.get, 'list') if isinstance(cur, FL) else cur
    key = Name(F, z3.Const('key', NAME))
    length = SInt(z3.Int('len'))
    merge = SInt(z3.Int('merge_lists'))
    self = Obj(MDC, dict(merge_lists=merge, _len=length, success=True, reason=''))
    stored = []
    D.contracts[unwrap(PM.OrderedDict.__setitem__)] = lambda D1, I1, a, kw: stored.append(a)
    cont, gi = D.contains, D.getitem
    D.contains = lambda I1, c, x: present if c is self and x is key else cont(I1, c, x)

    def getitem(I1, o, i):
        if o is self and i is key:
            if not present:
                raise PyRaise(KeyError, '')
            return cur
        return gi(I1, o, i)
    D.getitem = getitem
    raised = False
    D.unequal_kinds = lambda I1, a, b: False
    f = unwrap(MDC.__setitem__)
    try:
        I.call_python(f, [self, key, new], {}, MDC)
    except PyRaise as x:
        raised = x
    if not present:
        D.prove('the entry is stored', z3.BoolVal(not raised and len(stored) == 1 and stored[0][-2] is key and stored[0][-1] is new))
        D.prove('counted', zi(self.fields['_len']) == zi(length) + 1)
        return
    D.prove('not stored again', z3.BoolVal(not stored))
    D.prove('counted once', zi(self.fields['_len']) == zi(length))
    m = zi(merge)
    both = isinstance(old, FL) and isinstance(new, FL)
    same = od.veq(old, new) if both else old.t == new.t if isinstance(old, Term) and isinstance(new, Term) else F
    if raised:
        D.prove('another value is an error', z3.BoolVal(raised.exc_type is KeyError))
        D.prove('an equal value is no error', z3.Not(same))
        D.prove('lists to be merged are no error', m == 0 if both else T)
        return
    if not both:
        D.prove('another value is an error', same)
        return
    i = z3.Int('i?')
    rng = z3.And(i >= 0, i < zi(old.n) + zi(new.n))
    at = lambda first, second: z3.If(i < zi(first.n), tt(first.get(i)), tt(second.get(i - zi(first.n))))
    D.prove('another list is an error', z3.Implies(m == 0, same))
    D.prove('merged length', z3.Implies(m != 0, zi(cur.n) == zi(old.n) + zi(new.n)))
    if not ctx.branch(i < zi(cur.n), 'an entry'):
        return
    D.prove('appended', z3.Implies(z3.And(m < 0, rng), tt(cur.get(i)) == at(old, new)))
    D.prove('prepended', z3.Implies(z3.And(m > 0, rng), tt(cur.get(i)) == at(new, old)))


def t_update(ctx):
    """every entry of the other is set; the other's failure is copied"""
    n = z3.Int('n')
    key, val = Fn('key', Z, NAME), Fn('val', Z, VAL)

    def inv(st):
        return [('entries so far', st.D.stream.pos == st.k)]
    f = unwrap(MDC.update)
    D, I = setup(ctx, {(f, 1): Loop(inv, ghost='stream')})
    ctx.assume(n >= 0)
    D.stream = Stream(z3.IntVal(0))
    plain = ctx.choose(2, 'plain dictionary') == 1
    ok, mine = z3.Bool('other_success'), z3.Bool('self_success')

    class Other(Sym):
        pass
    o = Other()
    self = Obj(MDC, dict(success=SBool(mine), reason='before', merge_lists=0, _len=0))
    ga = D.getattr

    def getattr_(I1, x, name):
        if x is o:
            if name == 'items':
                return BoundMethod(o, name)
            if plain:
                raise PyRaise(AttributeError, name)
            return {'success': SBool(ok), 'reason': 'why'}[name]
        return ga(I1, x, name)
    D.getattr = getattr_
    cm = D.call_method

    def call_method(I1, m, a, kw):
        if m.obj is o:
            return FL(n, lambda i: (Name(F, key(zi(i))), Term(val(zi(i)))), 'list')
        return cm(I1, m, a, kw)
    D.call_method = call_method

    def setitem(I1, d, k, v):
        D.prove('the next entry', z3.And(z3.BoolVal(d is self), k.t == key(D.stream.pos), tt(v) == val(D.stream.pos)))
        ctx.set_attr(D.stream, 'pos', D.stream.pos + 1)
    D.setitem = setitem
    I.call_python(f, [self, o], {}, MDC)
    D.prove('all entries', D.stream.pos == n)
    s = D.b(self.fields['success'])
    D.prove('failure is copied', s == (mine if plain else z3.And(mine, ok)))
    D.prove('reason is copied', z3.Implies(z3.And(z3.Not(z3.BoolVal(plain)), z3.Not(ok)), z3.BoolVal(self.fields['reason'] == 'why')))


# ------------------------------------------------------------ sub-expressions

class CL(Sym):
    """a list, of which one knows how often it holds the expression X"""

    def __init__(self, cnt):
        self.cnt = cnt


COUNT = Fn('times_found', VAL, Z)


class FInterp(PInterp):
    def e_List(self, e, env):
        if not e.elts:
            return CL(z3.IntVal(0))
        return super().e_List(e, env)

    def e_Yield(self, e, env):
        v = self.eval(e.value, env)
        self.dom.emit(v)

    def e_YieldFrom(self, e, env):
        self.dom.emit_all(self.eval(e.value, env))


def t_find(fname):
    def t(ctx):
        """every sub-expression that matches, as often as it occurs"""
        f = unwrap(getattr(P, fname))
        D = PDomain(ctx)
        I = FInterp(ctx, D)
        D.attach(I)
        e, X = Term(z3.Const('expr', VAL)), z3.Const('X', VAL)
        N, K = z3.Int('nargs'), z3.Int('nkwargs')
        a, kv, kn = Fn('a', Z, VAL), Fn('kwv', Z, VAL), Fn('kwn', Z, NAME)
        SA, SK = Fn('found_in_args', Z, Z), Fn('found_in_kwargs', Z, Z)
        ctx.assume(z3.And(N >= 0, K >= 0, SA(0) == 0, SK(0) == 0))
        i = z3.Int('i!')
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), SA(i + 1) == SA(i) + COUNT(a(i))), patterns=[SA(i)]))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K), SK(i + 1) == SK(i) + COUNT(kv(i))), patterns=[SK(i)]))
        MATCHES = z3.Bool('matches')
        ctx.assume(COUNT(e.t) == z3.If(HASARGS(e.t), SA(N) + z3.If(HASKW(e.t), SK(K), 0), 0) + z3.If(z3.And(MATCHES, e.t == X), 1, 0))
        D.out = CL(z3.IntVal(0))
        gen = fname == 'finditer'
        cur = lambda st: D.out.cnt if gen else st['result'].cnt
        loops = [x for x in od.loops_of(f) if isinstance(x, ast.For)]
        top = [x for x in loops if not any(x is not y and any(z is x for z in ast.walk(y)) for y in loops)]
        invs = [lambda st: [('found in the first arguments', cur(st) == SA(st.k))], lambda st: [('found in the first keyword arguments', cur(st) == SA(N) + SK(st.k))]]
        for l, iv in zip(top, invs):
            D.loops[id(l)] = Loop(iv)
        self = Obj(P, {})
        m = MD()
        m.succ = SBool(MATCHES)

        def c_find(D1, I1, x, kw):
            D.prove('searches with this pattern', z3.BoolVal(x[0] is self))
            return CL(COUNT(tt(x[1])))

        def c_match(D1, I1, x, kw):
            D.prove('matches the expression', z3.BoolVal(x[-1] is e))
            return m
        D.contracts[f] = c_find
        D.contracts[unwrap(P.match)] = c_match
        D.args_of = lambda o: FL(N, lambda k: Term(a(zi(k)), tag='argument'), 'tuple')
        ga = D.getattr

        def getattr_(I1, o, name):
            if isinstance(o, (KwOf, CL)):
                return BoundMethod(o, name)
            return ga(I1, o, name)
        D.getattr = getattr_
        cm = D.call_method

        def call_method(I1, b, args, kwargs):
            o = b.obj
            if isinstance(o, KwOf) and b.name in ('values', 'items'):
                return FL(K, lambda k: Term(kv(zi(k))) if b.name == 'values' else (Name(F, kn(zi(k))), Term(kv(zi(k)))), 'list')
            if isinstance(o, CL) and b.name == 'extend' and isinstance(args[0], CL):
                ctx.set_attr(o, 'cnt', o.cnt + args[0].cnt)
                return None
            if isinstance(o, CL) and b.name == 'append':
                ctx.set_attr(o, 'cnt', o.cnt + z3.If(tt(args[0]) == X, 1, 0))
                return None
            return cm(I1, b, args, kwargs)
        D.call_method = call_method

        def emit(v):
            if v is not m:
                raise Unsupported('yields %r' % (v,))
            ctx.set_attr(D.out, 'cnt', D.out.cnt + z3.If(e.t == X, 1, 0))

        def emit_all(v):
            ctx.set_attr(D.out, 'cnt', D.out.cnt + v.cnt)
        D.emit, D.emit_all = emit, emit_all
        fh = D.for_hook

        def for_hook(I1, s, env, it):
            if isinstance(it, CL):
                b = s.body
                if not (len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Yield) and isinstance(b[0].value.value, ast.Name)
                        and isinstance(s.target, ast.Name) and b[0].value.value.id == s.target.id and not s.orelse):
                    raise Unsupported('loop over matches')
                return lambda: emit_all(it)
            return fh(I1, s, env, it)
        D.for_hook = for_hook

        def havoc(I1, env, sp, names, mut):
            for nm in names | mut:
                try:
                    v = I1.lookup(nm, env)
                except PyRaise:
                    continue
                if isinstance(v, CL):
                    ctx.set_attr(v, 'cnt', z3.Int(ctx.fresh('cnt')))
                else:
                    I1.bind(nm, Unknown(nm), env)
            ctx.set_attr(D.out, 'cnt', z3.Int(ctx.fresh('cnt')))
        D.havoc = havoc
        r = I.call_python(f, [self, e], {}, P)
        D.prove('every matching sub-expression, as often as it occurs', (D.out if gen else r).cnt == COUNT(e.t))
    return t


def t_helper(f, head):
    """a pattern of the given parts"""
    def t(ctx):
        D, I = setup(ctx)
        made = []

        def new(D1, I1, a, kw):
            names = ['head', 'args', 'kwargs']
            d = dict(zip(names, a))
            d.update(kw)
            made.append(d)
            o = Obj(P, d)
            made.append(o)
            return o
        D.classes[P] = new
        n = z3.Int('n')
        ctx.assume(n >= 0)
        q = Fn('q', Z, VAL)
        k = ctx.choose(3, 'arguments')
        args = [Term(z3.Const('arg%d' % i, VAL)) for i in range(k)]
        kwargs = {'a': Term(z3.Const('kwarg', VAL))} if ctx.choose(2, 'keywords') else {}
        wc, cs, mode = Name(F, z3.Const('name', NAME)), Term(z3.Const('conditions', VAL)), SInt(z3.Int('mode'))
        kw = dict(kwargs, conditions=cs)
        if f is PM.pattern:
            kw.update(wc_name=wc, mode=mode)
            h = Head()
            r = I.call_python(f, [h] + args, kw)
        else:
            h = PM.ProtoExpr
            r = I.call_python(f, args, kw)
        D.prove('one pattern', z3.BoolVal(len(made) == 2 and r is made[1]))
        d = made[0]
        D.prove('head', z3.BoolVal(d.get('head') is h))
        D.prove('argument patterns', z3.BoolVal(d.get('args') is None if not args else list(d['args']) == args))
        got = d.get('kwargs')
        if isinstance(got, SDict):
            got = dict(got.items)
        D.prove('keyword patterns', z3.BoolVal(got is None if not kwargs else got == kwargs))
        D.prove('conditions', z3.BoolVal(d.get('conditions') is cs))
        if f is PM.pattern:
            D.prove('name and mode', z3.BoolVal(d.get('wc_name') is wc and d.get('mode') is mode))
        else:
            D.prove('no name, one expression', z3.BoolVal(d.get('wc_name') is None and d.get('mode', 1) == 1))
    return t


def tasks():
    yield 'pattern', t_helper(PM.pattern, None), where(PM.pattern)
    yield 'pattern_head', t_helper(PM.pattern_head, None), where(PM.pattern_head)
    yield 'MatchDict.__setitem__', t_setitem, where(MDC.__setitem__)
    yield 'MatchDict.update', t_update, where(MDC.update)
    yield 'Pattern.__init__', t_init, where(P.__init__)
    yield 'Pattern.__eq__', t_eq, where(P.__eq__)
    for left in (False, True):
        yield 'Pattern.extended_arg_patterns' + ('[sequence on the left]' if left else ''), t_stream(left), where(P.extended_arg_patterns)
    yield 'Pattern._check_last_arg_pattern', t_check_last, where(P._check_last_arg_pattern)
    yield 'Pattern.findall', t_find('findall'), where(P.findall)
    yield 'Pattern.finditer', t_find('finditer'), where(P.finditer)
    for how in (None, 'left', 'right'):
        for kw in (False, True):
            yield 'Pattern.match[%s%s]' % ('no arguments' if how is None else 'sequence on the left' if how == 'left' else 'arguments', ', keywords' if kw else ''), \
                t_match(how, kw), where(P.match)
    yield 'match_pattern', t_match_pattern, where(PM.match_pattern)


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
