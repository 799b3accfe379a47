"""Contracts of substitution (C14).

D(e)   the value of e (at some values of the symbols)
DM(e)  the value of e at the substituted values: D(e) where every key of the
       substitution m has the value D(m[key]); hence DM(k) = D(m[k]) for a key
Contract of every substitute/_substitute:  D(e.substitute(m)) = DM(e).
The value of an expression is a function of its class, the values of its
arguments and its keyword arguments (compositionality; that `create` denotes the
unsimplified expression is C05 to C10). Binding constructs (indexed sums): the
conditions of the substitution lemma, i.e. the term is evaluated where every free
symbol has its substituted value.

Assumed: SymPy's subs(..., simultaneous=True) substitutes simultaneously;
labels and ranges: specs.labels; keys of a dictionary that are equal are equal
objects; plain (str, int) arguments and singletons have no parts."""
import ast
import importlib
import types
from pyvc import live   # noqa: F401
import z3
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, Term, Loop, Obj, FSet
from pyvc.engine import PyRaise, BoundMethod, Unsupported, Infeasible, Seq
from pyvc.domain import Sym
from pyvc.source import where, unwrap
import sympy

M = lambda n: importlib.import_module('qnet.' + n)
AA, AQ, SC, OP = M('algebra.core.abstract_algebra'), M('algebra.core.abstract_quantum_algebra'), M('algebra.core.scalar_algebra'), M('algebra.core.operator_algebra')
IO, MA, IX = M('algebra.core.indexed_operations'), M('algebra.core.matrix_algebra'), M('utils.indices')
SING = M('utils.singleton')
VAL = od.VAL if hasattr(od, 'VAL') else z3.DeclareSort('VAL')
Fn, Z, B = z3.Function, z3.IntSort(), z3.BoolSort()
D_ = Fn('D', VAL, VAL)
DM = Fn('DM', VAL, VAL)
MUL = Fn('MUL', VAL, VAL, VAL)
ISSYMPY, ISEXPR, ISSYMBOL, ISIDX = [Fn('is' + n, VAL, B) for n in ('sympy', 'expr', 'symbol', 'idx')]
HASSUB = Fn('has_substitute', VAL, B)
FREE = Fn('free', VAL, VAL, B)
IDXS = Fn('index_symbols', VAL, VAL, B)
T, F = z3.BoolVal(True), z3.BoolVal(False)


def tt(x):
    if isinstance(x, Term):
        return x.t
    if isinstance(x, Obj) and 't' in x.fields:
        return x.fields['t'].t
    raise Unsupported('value of %r' % (x,))


class PSet(FSet):
    """a set of values, given by its membership predicate"""

    def __init__(self, has, fl=None):
        super().__init__(lambda x: has(tt(x) if isinstance(x, Sym) else x), '')
        self.fl = fl


def pset(v):
    if isinstance(v, PSet):
        return v
    if isinstance(v, set) and not v:
        return PSet(lambda t: F)
    raise Unsupported('set %r' % (v,))


class SMap(Sym):
    """a dictionary of unknown size"""

    def __init__(self, D, has, img):
        self.D, self.has, self.img = D, has, img
        self.key = self.pos = self.n = None

    def enum(self):
        """the items, each exactly once"""
        D = self.D
        if self.key is None:
            self.n = D.ctx.fresh('nkeys')
            self.n = z3.Int(self.n)
            self.key = Fn(D.ctx.fresh('key'), Z, VAL)
            self.pos = Fn(D.ctx.fresh('pos'), VAL, Z)
            j, x = z3.Int(D.ctx.fresh('j')), z3.Const(D.ctx.fresh('x'), VAL)
            D.ctx.assume(self.n >= 0)
            D.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(self.has(self.key(j)), self.pos(self.key(j)) == j)), patterns=[self.key(j)]))
            D.ctx.assume(z3.ForAll([x], z3.Implies(self.has(x), z3.And(self.pos(x) >= 0, self.pos(x) < self.n, self.key(self.pos(x)) == x)), patterns=[self.pos(x)]))
        return FL(self.n, lambda i: (Term(self.key(zi(i))), Term(self.img(self.key(zi(i))))), 'list', meta=self)


class KW(Sym):
    """keyword arguments: names with values"""

    def __init__(self, n, name, val):
        self.n, self.name, self.val = n, name, val


class TypeOf(Sym):
    def __init__(self, t):
        self.t = t


class Dead(Sym):
    """a local variable of a loop body, after the loop"""

    def __init__(self, name):
        self.name = name


def kdict(v):
    """keyword arguments of a call"""
    v = dict(v)
    if set(v) == {'**'}:
        return v['**']
    return v


class SInterp(od.OInterp):
    def e_DictComp(self, e, env):
        g = e.generators[0]
        if len(e.generators) == 1:
            it = self.eval(g.iter, env)
            if isinstance(it, FL) and (isinstance(it.meta, (SMap, KW))):
                return self.dom.dictcomp(self, e, env, it)
            if isinstance(it, FL):
                raise Unsupported('dictionary over a list of unknown length')
        return super().e_DictComp(e, env)


class SDomain(od.ODomain):
    def __init__(self, ctx):
        super().__init__(ctx)
        for f, h in ((AA.Expression.create, c_create), (IO.IndexedSum.make_disjunct_indices, c_disjunct)):
            self.contracts[unwrap(f)] = h
        self.created = []
        ctx.solver.set('mbqi', False)
        x = z3.Const('x!', VAL)
        for a, b in ((ISSYMBOL, ISSYMPY), (ISIDX, ISSYMBOL)):
            ctx.assume(z3.ForAll([x], z3.Implies(a(x), b(x)), patterns=[a(x)]))
        ctx.assume(z3.ForAll([x], z3.Implies(ISEXPR(x), z3.And(z3.Not(ISSYMPY(x)), HASSUB(x))), patterns=[ISEXPR(x)]))
        ctx.assume(z3.ForAll([x], z3.Implies(ISSYMPY(x), z3.Not(HASSUB(x))), patterns=[ISSYMPY(x)]))

    def part(self, nm, **kw):
        t = Term(self.fresh(nm, VAL), tag='part')
        return t

    def smap(self):
        key = Fn(self.ctx.fresh('KEY'), VAL, B)
        img = Fn(self.ctx.fresh('IMG'), VAL, VAL)
        x = z3.Const(self.ctx.fresh('x'), VAL)
        self.ctx.assume(z3.ForAll([x], z3.Implies(key(x), DM(x) == D_(img(x))), patterns=[key(x)]))
        m = SMap(self, lambda t: key(t), lambda t: img(t))
        m.key0, m.base = key, None
        return m

    # ------------------------------------------------ terms
    def term_isinstance(self, I, o, c):
        p = {sympy.Basic: ISSYMPY, AA.Expression: ISEXPR, sympy.Symbol: ISSYMBOL, IX.IdxSym: ISIDX}.get(c)
        if p is None:
            return super().term_isinstance(I, o, c)
        return SBool(p(o.t))

    def term_attr(self, I, o, name):
        if name in ('substitute', 'subs'):
            if name == 'substitute' and not self.ctx.branch(HASSUB(o.t), 'has substitute'):
                raise PyRaise(AttributeError, name)
            return BoundMethod(o, name)
        if name == 'free_symbols':
            return PSet(lambda t: FREE(o.t, t))
        return super().term_attr(I, o, name)

    def hasattr(self, I, o, name):
        if isinstance(o, Term) and name == 'substitute':
            return SBool(HASSUB(o.t))
        if isinstance(o, Obj):
            return name in o.fields or self.find(o.cls, name) is not None
        raise Unsupported('hasattr %s of %r' % (name, o))

    def equal(self, I, a, b):
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return SBool(z3.Bool(self.ctx.fresh('same_type')))
        if isinstance(a, Sym) and isinstance(b, Sym):
            try:
                return SBool(tt(a) == tt(b))
            except Unsupported:
                pass
        return super().equal(I, a, b)

    def contains(self, I, c, x):
        if isinstance(c, SMap):
            return SBool(c.has(tt(x)))
        return super().contains(I, c, x)

    def getitem(self, I, o, i):
        if isinstance(o, SMap):
            if not self.entails(o.has(tt(i))):
                if not self.ctx.branch(o.has(tt(i)), 'key'):
                    raise PyRaise(KeyError, 'key')
            return Term(o.img(tt(i)), tag='image')
        return super().getitem(I, o, i)

    def getattr(self, I, o, name):
        if isinstance(o, (SMap, KW)):
            return BoundMethod(o, name)
        return super().getattr(I, o, name)

    def call_method(self, I, m, args, kwargs):
        o = m.obj
        if isinstance(o, SMap):
            if m.name == 'items' and not args:
                return o.enum()
            if m.name == 'keys' and not args:
                e = o.enum()
                return FL(e.n, lambda i: e.get(i)[0], 'list')
            if m.name == 'copy' and not args:
                return o
            if m.name == 'get' and len(args) in (1, 2):
                k = tt(args[0])
                if len(args) == 1:
                    raise Unsupported('get without default')
                return Term(z3.If(o.has(k), o.img(k), tt(args[1])))
        if isinstance(o, KW) and m.name == 'items':
            return FL(o.n, lambda i: (o.name(i), o.val(i)), 'list', meta=o)
        if isinstance(o, FSet):
            return self.set_method(I, o, m.name, args, kwargs)
        if isinstance(o, Term) and m.name == 'substitute':
            self.same_map(args[0])
            return self.substituted(o.t)
        if isinstance(o, Term) and m.name == 'subs':
            return self.subs(o, args, kwargs)
        return super().call_method(I, m, args, kwargs)

    def substituted(self, t):
        r = Term(self.fresh('sub', VAL), tag='substituted')
        self.fact(D_(r.t) == DM(t))
        return r

    def same_map(self, m):
        self.prove('substitutes by the given dictionary', T if m is self.M else F)

    def subs(self, o, args, kwargs):
        """SymPy: the value with the SymPy keys substituted"""
        self.prove('simultaneous substitution', z3.BoolVal(kwargs.get('simultaneous') is True))
        m = args[0]
        if not isinstance(m, SMap):
            raise Unsupported('subs with %r' % (m,))
        if kwargs.get('simultaneous') is not True:
            return Term(self.fresh('partial', VAL))
        x = z3.Const(self.ctx.fresh('k'), VAL)
        # other keys do not occur in a SymPy object
        self.prove('every SymPy key is substituted, by its value',
                   z3.Implies(z3.And(self.M.has(x), ISSYMPY(x)), z3.And(m.has(x), m.img(x) == self.M.img(x))))
        self.prove('nothing else is substituted', z3.Implies(z3.And(m.has(x), ISSYMPY(x)), self.M.has(x)))
        return self.substituted(o.t)

    def set_method(self, I, o, name, args, kwargs):
        if not all(isinstance(a, (FSet, set)) for a in args) and name not in ('add',):
            raise Unsupported('set method %s' % name)
        h = o.has
        if name == 'union':
            bs = [pset(a) for a in args]
            return PSet(lambda t: z3.Or([h(t)] + [b.has(t) for b in bs]))
        if name == 'intersection' and len(args) == 1:
            b = pset(args[0])
            return PSet(lambda t: z3.And(h(t), b.has(t)))
        if name == 'difference' and len(args) == 1:
            b = pset(args[0])
            return PSet(lambda t: z3.And(h(t), z3.Not(b.has(t))))
        if name == 'isdisjoint' and len(args) == 1:
            b = pset(args[0])
            t = z3.Const(self.ctx.fresh('e'), VAL)
            return SBool(z3.ForAll([t], z3.Not(z3.And(h(t), b.has(t)))))
        if name == 'update':
            bs = [pset(a) for a in args]
            self.ctx.set_attr(o, 'has', lambda t: z3.Or([h(t)] + [b.has(t) for b in bs]))
            return None
        if name == 'add':
            v = tt(args[0])
            self.ctx.set_attr(o, 'has', lambda t: z3.Or(h(t), (tt(t) if isinstance(t, Sym) else t) == v))
            return None
        raise Unsupported('set method %s' % name)

    def binop(self, I, name, a, b):
        if isinstance(a, FSet) and isinstance(b, FSet):
            m = {'|': 'union', '&': 'intersection', '-': 'difference'}.get(name)
            if m:
                return self.set_method(I, a, m, [b], {})
        if isinstance(a, Term) and isinstance(b, Term) and name == '*':
            r = Term(self.fresh('prod', VAL))
            self.fact(D_(r.t) == MUL(D_(a.t), D_(b.t)))
            return r
        return super().binop(I, name, a, b)

    def make_set(self, I, v):
        if isinstance(v, FL):
            j = z3.Int(self.ctx.fresh('j'))
            s = PSet(lambda t: z3.Exists([j], z3.And(j >= 0, j < zi(v.n), tt(v.get(j)) == t)), fl=v)
            if hasattr(v, 'member'):
                s = PSet(v.member, fl=v)
            return s
        if isinstance(v, (list, tuple)) and not v:
            return PSet(lambda t: F)
        return super().make_set(I, v)

    def length(self, I, o):
        if isinstance(o, PSet) and o.fl is not None:
            n = zi(o.fl.n)
            c = z3.Int(self.ctx.fresh('size'))
            a, b = z3.Int(self.ctx.fresh('a')), z3.Int(self.ctx.fresh('b'))
            self.fact(z3.And(c >= 0, c <= n))
            g = lambda i: tt(o.fl.get(i))
            dis = z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n), g(a) != g(b)))
            self.fact((c == n) == dis)
            return SInt(c)
        if isinstance(o, PSet):
            c = z3.Int(self.ctx.fresh('size'))
            t = z3.Const(self.ctx.fresh('e'), VAL)
            self.fact(z3.And(c >= 0, (c == 0) == z3.ForAll([t], z3.Not(o.has(t)))))
            return SInt(c)
        return super().length(I, o)

    def truth(self, I, v):
        if isinstance(v, PSet):
            return I.truth(I.compare(ast.Gt, self.length(I, v), 0))
        return super().truth(I, v)

    def iterate(self, I, o):
        if isinstance(o, PSet) and o.fl is not None:
            return o.fl
        return super().iterate(I, o)

    def comp(self, I, e, env):
        g = e.generators[0]
        if len(e.generators) == 1:
            it = I.eval(g.iter, env)
            if isinstance(it, PSet):
                if it.fl is None:
                    raise Unsupported('iteration over a set')
                if g.ifs:
                    raise Unsupported('filtered set')
                def body(x):
                    sub = od.Env({}, env, env.globs)
                    I.assign(g.target, x, sub)
                    return I.eval(e.elt, sub)
                return self.fmap(I, it.fl, body)
            if isinstance(it, FL) and it.meta is None:
                pass
        return super().comp(I, e, env)

    def dictcomp(self, I, e, env, it):
        """{key: value for key, val in items if ...}"""
        g = e.generators[0]
        ctx = self.ctx
        if isinstance(it.meta, KW):
            names = []

            def body(x):
                sub = od.Env({}, env, env.globs)
                I.assign(g.target, x, sub)
                names.append(I.eval(e.key, sub))
                return I.eval(e.value, sub)
            if g.ifs:
                raise Unsupported('filtered keyword arguments')
            r = self.fmap(I, it, body)
            i = z3.Int('nm!')
            ok = names and all(isinstance(x, Term) and x.t.decl().eq(it.meta.name(i).t.decl()) for x in names)
            self.prove('keyword names are kept', T if ok else F)
            return KW(it.meta.n, it.meta.name, r.get)
        m = it.meta
        kk = z3.Const(ctx.fresh('anykey'), VAL)

        def run():
            n0 = None
            ctx.assume(m.has(kk))
            n0 = len(ctx.solver.assertions())
            sub = od.Env({}, env, env.globs)
            I.assign(g.target, (Term(kk), Term(m.img(kk))), sub)
            keep = all([I.truth(I.eval(c, sub)) for c in g.ifs])
            res = (I.eval(e.key, sub), I.eval(e.value, sub)) if keep else None
            conds = [a for a in list(ctx.solver.assertions())[n0:] if not z3.is_quantifier(a)]
            return res, z3.And(conds + [T])
        has, img = F, m.img(kk)
        for r in ctx.explore(run):
            if r.kind != 'ok':
                raise Unsupported('dictionary comprehension')
            res, cond = r.value
            if res is None:
                continue
            if not (isinstance(res[0], Term) and res[0].t.eq(kk)):
                raise Unsupported('dictionary with other keys')
            has = z3.Or(has, cond)
            img = z3.If(cond, tt(res[1]), img)
        h0 = m.has
        return SMap(self, lambda t: z3.And(h0(t), z3.substitute(has, (kk, t))), lambda t: z3.substitute(img, (kk, t)))

    def for_hook(self, I, s, env, it):
        if isinstance(it, FL) and isinstance(it.meta, SMap):
            return lambda: self.collect(I, s, env, it)
        return super().for_hook(I, s, env, it)

    def collect(self, I, s, env, it):
        """a loop over the entries of a dictionary that only adds elements to
        sets, which it does not read: afterwards, a set holds what it held
        before and what every entry adds (invariant: after k entries, what the
        entries j < k add)"""
        ctx = self.ctx
        names, mut = od.stored(s.body)
        names |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        adds = [n.value for b in s.body for n in ast.walk(b) if isinstance(n, ast.Attribute) and n.attr in ('update', 'add')]
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id in mut and not any(n is a for a in adds):
                    raise Unsupported('loop reads the set %s' % n.id)
                if isinstance(n, (ast.Return, ast.Break, ast.AugAssign, ast.Global, ast.Nonlocal)):
                    raise Unsupported('control flow in a loop over a dictionary')
        if names & mut or s.orelse:
            raise Unsupported('loop over a dictionary')
        before = {nm: pset(I.lookup(nm, env)) for nm in mut}
        j = z3.Int(ctx.fresh('ent'))

        def run():
            rec = {nm: PSet(lambda t: F) for nm in mut}
            sub = od.Env(dict(rec), env, env.globs)
            ctx.assume(z3.And(j >= 0, j < it.n))
            n0 = len(ctx.solver.assertions())
            I.assign(s.target, it.get(j), sub)
            try:
                I.exec_block(s.body, sub)
            except od._Continue:
                pass
            conds = [a for a in list(ctx.solver.assertions())[n0:] if not z3.is_quantifier(a)]
            return {nm: rec[nm].has for nm in mut}, z3.And(conds + [T])
        cases = []
        for r in ctx.explore(run):
            if r.kind != 'ok':
                raise Unsupported('loop over a dictionary')
            cases.append(r.value)
        for nm in mut:
            old = before[nm].has

            def has(t, nm=nm, old=old):
                x = tt(t) if isinstance(t, Sym) else t
                k = z3.Int(ctx.fresh('k'))
                body = z3.Or([z3.And(c, h[nm](x)) for h, c in cases])
                return z3.Or(old(x), z3.Exists([k], z3.And(k >= 0, k < it.n, z3.substitute(body, (j, k)))))
            I.bind(nm, PSet(has), env)
        for nm in names:
            I.bind(nm, Dead(nm), env)

    def type_of(self, I, o):
        if isinstance(o, Term):
            return TypeOf(o.t)
        return super().type_of(I, o)

    def keep_star(self, v):
        return isinstance(v, (FL, PSet))

    def as_kwargs(self, I, d):
        if isinstance(d, KW):
            return {'**': d}
        return super().as_kwargs(I, d)


def _hasattr(D, I, a, kw):
    if isinstance(a[0], Sym):
        return D.hasattr(I, a[0], a[1])
    return hasattr(*a)


def c_create(D, I, a, kw):
    """create denotes the expression of the class with these arguments"""
    D.created.append(('create', a[0] if not isinstance(a[0], Obj) else a[0].cls, list(a[1:]), kw))
    r = Obj(AA.Expression, dict(t=Term(D.fresh('created', VAL))))
    D.result = r
    return r


def c_disjunct(D, I, a, kw):
    o = Obj(a[0].cls, dict(a[0].fields))
    o.fields['renamed'] = a[0]
    D.disjunct.append((o, a[1:]))
    return o


def setup(ctx):
    D = SDomain(ctx)
    I = SInterp(ctx, D)
    D.attach(I)
    D.contracts[hasattr] = _hasattr
    D.M = D.smap()
    return D, I


def call(D, I, o, name, *a, **kw):
    f = D.find(o.cls, name)
    g = f[1]
    return I.call_python(unwrap(g.fget if isinstance(g, property) else g), [o] + list(a), kw, f[0])


def c_substitute(D, I, a, kw):
    """contract of the module function `substitute`"""
    D.same_map(a[1] if len(a) > 1 else kw.get('var_map'))
    return D.substituted(tt(a[0]))


# ------------------------------------------------------------ generic expressions

def t_function(ctx):
    """substitute(x, m) for SymPy objects, objects with `substitute`, others"""
    D, I = setup(ctx)
    x = D.part('x')
    try:
        r = I.call_python(AA.substitute, [x, D.M], {})
    except PyRaise as e:
        D.prove('no exception', F)
        return
    # something that is neither has no parts
    ctx.assume(z3.Implies(z3.And(z3.Not(ISSYMPY(x.t)), z3.Not(HASSUB(x.t)), z3.Not(D.M.has(x.t))), D_(x.t) == DM(x.t)))
    D.prove('value at the substituted values', D_(tt(r)) == DM(x.t))


def t_substitute(ctx):
    D, I = setup(ctx)
    o = Obj(OP.OperatorTimes, dict(t=D.part('self')))
    D.contracts[unwrap(AA.Expression._substitute)] = lambda D_1, I_, a, kw: (D.same_map(a[1]), D.substituted(tt(a[0])))[1]
    r = call(D, I, o, 'substitute', D.M)
    D.prove('value at the substituted values', D_(tt(r)) == DM(tt(o)))
    D.prove('a key is replaced', z3.Implies(D.M.has(tt(o)), tt(r) == D.M.img(tt(o))))


def t__substitute(ctx):
    """the same class with substituted arguments and keyword arguments"""
    D, I = setup(ctx)
    D.contracts[unwrap(AA.substitute)] = c_substitute
    single = ctx.choose(2, 'singleton')
    n, nk = D.int('nargs', lo=0), D.int('nkwargs', lo=0)
    av, kn, kv = [Fn(D.ctx.fresh(s), Z, VAL) for s in ('arg', 'name', 'kwarg')]
    args = FL(zi(n), lambda i: Term(av(zi(i))), 'tuple')
    kws = KW(zi(nk), lambda i: Term(kn(zi(i))), lambda i: Term(kv(zi(i))))
    K = type('K', (AA.Expression,), dict(args=property(lambda s: None), kwargs=property(lambda s: None), _diff=None, _latex=None))
    if single:
        K = type(OP.IdentityOperator)
    o = Obj(K, dict(t=D.part('self'), args=args, kwargs=kws))
    if not single:
        D.contracts[unwrap(K.create)] = c_create
        D.classes[K] = lambda D1, I1, a, kw: c_new(D1, K, a, kw)
    safe = ctx.choose(2, 'safe') == 1
    D.safe_types = {}
    D.type_eq = Fn(D.ctx.fresh('same_type'), VAL, B)
    if single:
        # a singleton has no parts; `self.__class__` is a Singleton
        ctx.assume(z3.Implies(z3.Not(D.M.has(tt(o))), D_(tt(o)) == DM(tt(o))))
    r = I.call_python(unwrap(AA.Expression._substitute), [o, D.M], dict(safe=safe))
    if r is o:
        D.prove('returned unchanged only without parts', z3.BoolVal(bool(single)))
        D.prove('value of a singleton', z3.Or(D_(tt(o)) == DM(tt(o)), D.M.has(tt(o))) if safe else D_(tt(o)) == DM(tt(o)))
        return
    if not D.created:
        D.prove('value at the substituted values', D_(tt(r)) == DM(tt(o)))
        return
    how, cls, a, kw = D.created[-1]
    D.prove('result is the expression created', z3.BoolVal(len(D.created) == 1 and r is D.result))
    D.prove('created by the right class', z3.BoolVal(cls is K and (how == 'new') == safe))
    a = a[0] if len(a) == 1 and isinstance(a[0], FL) else a
    if not isinstance(a, FL):
        raise Unsupported('arguments %r' % (a,))
    kw = kdict(kw)
    if not isinstance(kw, KW):
        raise Unsupported('keyword arguments %r' % (kw,))
    i = D.int('i')
    D.prove('as many arguments', zi(a.n) == zi(n))
    ctx.assume(z3.And(zi(i) >= 0, zi(i) < zi(n)))
    D.prove('argument at the substituted values', D_(tt(a.get(zi(i)))) == DM(av(zi(i))))
    k = D.int('k')
    D.prove('as many keyword arguments', zi(kw.n) == zi(nk))
    D.prove('keyword argument at the substituted values', z3.Implies(z3.And(zi(k) >= 0, zi(k) < zi(nk)), D_(tt(kw.val(zi(k)))) == DM(kv(zi(k)))))
    D.prove('keyword names kept', kw.name(zi(k)).t == kn(zi(k)))


def c_new(D, K, a, kw):
    D.created.append(('new', K, list(a), kw))
    D.result = Obj(K, dict(t=Term(D.fresh('created', VAL))))
    return D.result


def t_scalar_times(cls):
    def t(ctx):
        """coefficient and term at the substituted values"""
        D, I = setup(ctx)
        D.contracts[unwrap(AA.substitute)] = c_substitute
        coeff, term = D.part('coeff'), D.part('term')
        ctx.assume(z3.And(ISEXPR(term.t), z3.Or(ISEXPR(coeff.t), ISSYMPY(coeff.t))))
        o = Obj(cls, dict(t=D.part('self'), _operands=(coeff, term)))
        ctx.assume(z3.Not(D.M.has(tt(o))))
        ctx.assume(DM(tt(o)) == MUL(DM(coeff.t), DM(term.t)))
        D.classes[cls] = lambda D1, I1, a, kw: c_new(D1, cls, a, kw)
        safe = ctx.choose(2, 'safe') == 1
        r = call(D, I, o, '_substitute', D.M, safe=safe)
        if D.created:
            how, c, a, kw = D.created[-1]
            D.prove('same class only if asked for', z3.BoolVal(safe and r is D.result and len(a) == 2 and not kw))
            D.prove('value at the substituted values', MUL(D_(tt(a[0])), D_(tt(a[1]))) == DM(tt(o)))
        else:
            D.prove('value at the substituted values', D_(tt(r)) == DM(tt(o)))
    return t


def t_matrix(ctx):
    """every entry at the substituted values"""
    D, I = setup(ctx)
    D.contracts[unwrap(AA.substitute)] = c_substitute
    o = Obj(MA.Matrix, dict(t=D.part('self')))
    done = []

    def element_wise(D1, I1, a, kw):
        x = D.part('entry')
        r = I1.call(a[1], [x] + list(a[2:]), kw)
        D.prove('entry at the substituted values', D_(tt(r)) == DM(x.t))
        done.append(Obj(MA.Matrix, dict(t=D.part('mapped'))))
        return done[-1]
    D.contracts[unwrap(MA.Matrix.element_wise)] = element_wise
    r = call(D, I, o, '_substitute', D.M)
    if done:
        D.prove('the matrix of the entries', z3.BoolVal(r is done[-1]))
    else:
        D.prove('a key is replaced', z3.And(D.M.has(tt(o)), tt(r) == D.M.img(tt(o))))


# ------------------------------------------------------------ indexed sums

def t_sum(cls):
    def t(ctx):
        D, I = setup(ctx)
        m = D.M
        n = D.int('nranges', lo=1)
        b = Fn(ctx.fresh('sym'), Z, VAL)
        pb = Fn(ctx.fresh('symat'), VAL, Z)
        j = z3.Int('j!')
        x = z3.Const('x!!', VAL)
        nn = zi(n)
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nn), z3.And(pb(b(j)) == j, ISIDX(b(j)))), patterns=[b(j)]))
        bound = lambda t: z3.And(pb(t) >= 0, pb(t) < nn, b(pb(t)) == t)
        term = D.part('term')
        ranges = FL(nn, lambda i: Obj(IX.IndexRangeBase, dict(index_symbol=Term(b(zi(i))), at=i)), 'tuple')
        vs = FL(nn, lambda i: Term(b(zi(i))), 'list')
        vs.member = bound
        o = Obj(cls, dict(t=D.part('self'), _operands=(term,), ranges=ranges, term=term, bound_symbols=PSet(bound, vs), variables=vs))
        D.disjunct = []
        selfidx = Fn(ctx.fresh('selfidx'), VAL, B)
        # index symbols of the sum and of the values
        ctx.assume(z3.ForAll([x], z3.Implies(z3.And(FREE(term.t, x), ISIDX(x)), selfidx(x)), patterns=[FREE(term.t, x)]))
        y = z3.Const('y!!', VAL)
        ctx.assume(z3.ForAll([x, y], z3.Implies(z3.And(FREE(y, x), ISIDX(x)), IDXS(y, x)), patterns=[FREE(y, x)]))
        ctx.assume(z3.ForAll([x, y], z3.Implies(IDXS(y, x), ISIDX(x)), patterns=[IDXS(y, x)]))

        def c_idx(D1, I1, a, kw):
            if a[0] is o:
                return PSet(lambda t: selfidx(t))
            v = tt(a[0])
            return PSet(lambda t: IDXS(v, t))
        D.contracts[unwrap(IO._index_symbols)] = c_idx
        out = []

        def c_super(D1, I1, a, kw):
            out.append(('super', a[0], a[1], kw.get('safe', a[2] if len(a) > 2 else False)))
            return Obj(AA.Expression, dict(t=Term(D.fresh('r', VAL)), of='super'))

        def c_self(D1, I1, a, kw):
            out.append(('again', a[0], a[1], kw.get('safe', a[2] if len(a) > 2 else False)))
            return Obj(AA.Expression, dict(t=Term(D.fresh('r', VAL)), of='again'))
        D.contracts[unwrap(AA.Expression._substitute)] = c_super
        f = unwrap(IO.IndexedSum._substitute)
        safe = ctx.choose(2, 'safe') == 1
        D.contracts[f] = c_self
        r = I.call_python(f, [o, m], dict(safe=safe), IO.IndexedSum)
        how, who, mm, sf = out[-1]
        D.prove('one result, returned', z3.BoolVal(len(out) == 1 and isinstance(r, Obj) and r.fields.get('of') == how and sf is safe))
        if not isinstance(mm, SMap):
            raise Unsupported('dictionary %r' % (mm,))
        s = z3.Const(ctx.fresh('s'), VAL)
        # the dictionary agrees with the given one, except for bound symbols
        D.prove('free keys as given', z3.Implies(z3.Not(bound(s)), z3.And(mm.has(s) == m.has(s), z3.Implies(m.has(s), mm.img(s) == m.img(s)))))
        if how == 'again':
            D.prove('the sum with other bound symbols', z3.BoolVal(bool(D.disjunct) and who is D.disjunct[-1][0]))
            return
        D.prove('the sum itself', z3.BoolVal(who is o))
        rn = lambda i: z3.If(mm.has(b(i)), mm.img(b(i)), b(i))
        i1, i2 = zi(D.int('i1')), zi(D.int('i2'))
        inr = lambda i: z3.And(i >= 0, i < nn)
        D.prove('bound symbols are replaced by symbols', z3.Implies(inr(i1), ISIDX(rn(i1))))
        D.prove('bound symbols stay distinct', z3.Implies(z3.And(inr(i1), inr(i2), i1 != i2), rn(i1) != rn(i2)))
        m.enum()
        if m is not mm:
            mm.enum()
        # instances of: every key is among the entries
        for mp in (m, mm):
            D.fact(z3.Implies(mp.has(s), z3.And(mp.pos(s) >= 0, mp.pos(s) < mp.n, mp.key(mp.pos(s)) == s)))
        fr = z3.And(inr(i1), FREE(term.t, s), z3.Not(bound(s)))
        D.prove('a free symbol is not captured', z3.Implies(z3.And(fr, z3.Not(m.has(s))), rn(i1) != s))
        D.prove('a substituted value is not captured', z3.Implies(z3.And(fr, m.has(s)), z3.Not(FREE(m.img(s), rn(i1)))))
        # keys that are expressions: wherever they occur
        D.prove('the value of an expression is not captured', z3.Implies(
            z3.And(inr(i1), z3.Not(ISSYMBOL(s)), m.has(s), z3.Not(bound(s))), z3.Not(FREE(m.img(s), rn(i1)))))
    return t


def tasks():
    E = AA.Expression
    yield 'substitute', t_function, where(AA.substitute)
    yield 'Expression.substitute', t_substitute, where(E.substitute)
    yield 'Expression._substitute', t__substitute, where(E._substitute)
    yield 'ScalarTimesQuantumExpression._substitute', t_scalar_times(OP.ScalarTimesOperator), where(AQ.ScalarTimesQuantumExpression._substitute)
    yield 'IndexedSum._substitute', t_sum(OP.OperatorIndexedSum), where(IO.IndexedSum._substitute)
    yield 'Matrix._substitute', t_matrix, where(MA.Matrix._substitute)


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
