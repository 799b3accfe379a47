"""Contracts of the equations (C22): every operation acts on both sides as stated,
the displayed left side of a continued equation is the last one written.

Sides are opaque values; functions and operators on them are uninterpreted, so
the obligations hold for every function, method, operand and length of history."""
import importlib
from pyvc import live   # noqa: F401
import z3
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, Term, Obj, Loop, to_fl
from pyvc.engine import PyRaise, BoundMethod, Unsupported, Infeasible
from pyvc.source import where, unwrap
EQ = importlib.import_module('qnet.algebra.toolbox.equation')
AA = importlib.import_module('qnet.algebra.core.abstract_algebra')
Eq = EQ.Eq

VAL = z3.DeclareSort('Side')
OPT = z3.Datatype('Opt')
OPT.declare('none')
OPT.declare('some', ('val', VAL))
OPT = OPT.create()
U = z3.Function('function_applied', VAL, VAL)
U2 = z3.Function('function_applied_to_two', VAL, VAL, VAL)
MTD = z3.Function('method_called', VAL, z3.IntSort(), VAL)
BIN = {k: z3.Function('side_' + n, VAL, VAL, VAL) for k, n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'div'))}
FREE = {k: z3.Function(k, VAL, z3.SetSort(z3.IntSort())) for k in ('free_symbols', 'bound_symbols')}
SUBST = z3.Function('substituted', VAL, VAL)
EXPAND = z3.Function('expanded', VAL, VAL)
SIMP = z3.Function('simplified', VAL, VAL)
J = z3.Int('j?')


def some(x):
    return OPT.some(x)


class SymSet(od.Sym):
    def __init__(self, t):
        self.t = t


class Fn(od.Sym):
    """an arbitrary function of one value"""


class EInterp(od.OInterp):
    def binop(self, op, a, b, inplace=False):
        import ast
        if isinstance(a, SymSet) or isinstance(b, SymSet):
            f = lambda x: x.t if isinstance(x, SymSet) else z3.EmptySet(z3.IntSort())
            if op is not ast.BitOr:
                raise Unsupported('set operation')
            return SymSet(z3.SetUnion(f(a), f(b)))
        return super().binop(op, a, b, inplace)


class EDomain(od.ODomain):
    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.contracts[Eq.lhs.fget] = c_lhs
        self.contracts[unwrap(AA.substitute)] = lambda D, I, a, kw: self.v(SUBST(self.val(a[0])))

    def v(self, t):
        return Term(t if t.sort() == OPT else some(t))

    def val(self, x):
        """the side held by a value that is not None"""
        if not isinstance(x, Term):
            raise Unsupported('side expected: %r' % (x,))
        if x.t.sort() == VAL:
            return x.t
        t = z3.simplify(OPT.val(x.t))
        if not self.entails(OPT.is_some(x.t)):
            self.prove('side is present', OPT.is_some(x.t))
        return t

    def value(self, name='x'):
        return Term(some(z3.Const(self.ctx.fresh(name), VAL)))

    def equation(self, name='eq'):
        """an equation with a history of any length; the first line shows its left side"""
        n = self.int(name + '_n', lo=0)
        pl = z3.Function(self.ctx.fresh('prev_lhs'), z3.IntSort(), OPT)
        pr = z3.Function(self.ctx.fresh('prev_rhs'), z3.IntSort(), OPT)
        pt = z3.Function(self.ctx.fresh('prev_tag'), z3.IntSort(), OPT)
        l, r, t = (z3.Const(self.ctx.fresh(k), OPT) for k in ('lhs', 'rhs', 'tag'))
        mk = lambda f: FL(zi(n), lambda j: Term(f(zi(j))), 'list')
        o = Obj(Eq, dict(_lhs=Term(l), _rhs=Term(r), _tag=Term(t), _prev_lhs=mk(pl), _prev_rhs=mk(pr), _prev_tags=mk(pt)))
        self.ctx.assume(OPT.is_some(r))
        self.ctx.assume(z3.If(zi(n) > 0, OPT.is_some(pl(0)), OPT.is_some(l)))
        eff = z3.Const(self.ctx.fresh('shown_lhs'), VAL)
        o.eff = eff
        self.ctx.assume(z3.Implies(OPT.is_some(l), OPT.val(l) == eff))
        return o

    # ------------------------------------------------ protocol
    def isinstance(self, I, o, c):
        if isinstance(o, Term):
            return self.ctx.choose(2, 'kind of value') == 1 if c is not Eq else False
        return od.ODomain.isinstance(self, I, o, c)

    def is_none(self, I, o):
        if isinstance(o, Term):
            return SBool(OPT.is_none(o.t))
        return od.ODomain.is_none(self, I, o)

    def term_attr(self, I, o, name):
        if name in FREE:
            if self.ctx.choose(2, 'side without symbols'):
                self.ctx.assume(FREE[name](self.val(o)) == z3.EmptySet(z3.IntSort()))
                raise PyRaise(AttributeError, name)
            return SymSet(FREE[name](self.val(o)))
        if name in ('lhs', 'rhs', '_lhs', '_rhs'):
            raise PyRaise(AttributeError, name)
        return BoundMethod(o, name)

    def call_method(self, I, m, args, kwargs):
        if isinstance(m.obj, Term):
            t = self.val(m.obj)
            if m.name == 'expand':
                return self.v(EXPAND(t))
            if m.name == 'simplify_scalar':
                return self.v(SIMP(t))
            if m.name == 'some_method':
                return self.v(MTD(t, self.code(args, kwargs)))
        return od.ODomain.call_method(self, I, m, args, kwargs)

    def code(self, args, kwargs):
        """the extra arguments must be handed on unchanged"""
        ok = len(args) == len(self.extra[0]) and all(x is y for x, y in zip(args, self.extra[0])) and kwargs == self.extra[1]
        self.prove('arguments handed on', z3.BoolVal(bool(ok)))
        return z3.IntVal(0)

    def call_value(self, I, f, args, kwargs):
        if isinstance(f, Fn):
            self.code(args[1:], kwargs)
            return self.v(U(self.val(args[0])))
        return od.ODomain.call_value(self, I, f, args, kwargs)

    def other_binop(self, I, name, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return NotImplemented
        return self.v(BIN[name](self.val(a), self.val(b)))

    def equal(self, I, a, b):
        if isinstance(a, Term) and isinstance(b, Term):
            return SBool(self.val(a) == self.val(b))
        if isinstance(a, Term) != isinstance(b, Term) and (a is None or b is None):
            return SBool(OPT.is_none((a if isinstance(a, Term) else b).t))
        return od.ODomain.equal(self, I, a, b)

    def truth(self, I, v):
        if isinstance(v, Fn):
            return True
        return od.ODomain.truth(self, I, v)

    def to_int(self, I, o):
        if isinstance(o, Term):
            if self.ctx.choose(2, 'tag is a number'):
                return o
            raise PyRaise(ValueError if self.ctx.choose(2, 'no number') else TypeError, '')
        return od.ODomain.to_int(self, I, o)

    def fl_method(self, I, o, name, args, kwargs):
        if name == 'append' and args[0] is None:
            args = [Term(OPT.none)]
        return od.ODomain.fl_method(self, I, o, name, args, kwargs)


def c_lhs(D, I, a, kw):
    o = a[0]
    if getattr(o, 'eff', None) is not None:
        return D.v(o.eff)
    x = o.fields['_lhs']
    if isinstance(x, Term):
        return x
    raise Unsupported('left side of a new equation')


def side(x):
    return x.t if isinstance(x, Term) else OPT.none if x is None else None


def setup(ctx):
    D = EDomain(ctx)
    I = EInterp(ctx, D)
    return D, I


def t_lhs(ctx):
    """the left side shown is the last one that was written"""
    D, I = setup(ctx)
    del D.contracts[Eq.lhs.fget]
    o = D.equation()
    n, pl, l = zi(o.fields['_prev_lhs'].n), o.fields['_prev_lhs'].get, o.fields['_lhs'].t
    at = lambda j: pl(j).t

    def inv(st):
        i = zi(st['i'])
        cur = side(st['lhs'])
        return [('position', z3.And(i <= 0, i >= -n)),
                ('current line', cur == z3.If(i == 0, l, at(n + i))),
                ('later lines are empty', z3.Implies(i < 0, z3.And(OPT.is_none(l), z3.ForAll([J], z3.Implies(z3.And(J > n + i, J < n), OPT.is_none(at(J)))))))]
    ns = od.loops_of(Eq.lhs.fget)
    if ns:
        D.loops[id(ns[0])] = Loop(inv, shapes=dict(lhs=lambda D, old: Term(z3.Const(ctx.fresh('lhs'), OPT))))
    r = I.call_python(Eq.lhs.fget, [o], {})
    t = side(r)
    D.prove('a side is shown', OPT.is_some(t))
    D.prove('last one written', z3.If(OPT.is_some(l), t == l, z3.Exists([J], z3.And(J >= 0, J < n, t == at(J), z3.ForAll([z3.Int('k?')], z3.Implies(
        z3.And(z3.Int('k?') > J, z3.Int('k?') < n), OPT.is_none(at(z3.Int('k?')))))))))


def history(D, new, old, cont):
    """the lines before the new one"""
    for k, cur in (('_prev_lhs', side(old.fields['_lhs'])), ('_prev_rhs', side(old.fields['_rhs'])), ('_prev_tags', side(old.fields['_tag']))):
        h = to_fl(new.fields[k])
        if not cont:
            D.prove('no history ' + k, zi(h.n) == 0)
            continue
        o = old.fields[k]
        D.prove('one more line ' + k, zi(h.n) == zi(o.n) + 1)
        j = zi(D.int('j'))
        m = D.ctx.mark()
        D.ctx.assume(z3.And(j >= 0, j < zi(o.n)))
        D.prove('earlier lines kept ' + k, side(h.get(j)) == side(o.get(j)))
        D.ctx.undo(m)
        D.prove('last line ' + k, side(h.get(zi(o.n))) == cur)


def check(D, new, old, lhs, rhs, tag, cont):
    if not (isinstance(new, Obj) and new.cls is Eq):
        raise Unsupported('result %r' % (new,))
    history(D, new, old, cont)
    l = side(new.fields['_lhs'])
    D.prove('right side', side(new.fields['_rhs']) == some(rhs))
    # an empty left side shows the one of the line before, as the history is kept
    D.prove('left side', z3.If(OPT.is_some(l), l == some(lhs), z3.And(z3.BoolVal(bool(cont)), old.eff == lhs)))
    D.prove('tag', side(new.fields['_tag']) == tag)


def applied(name, on, mtd=False):
    def t(ctx):
        D, I = setup(ctx)
        o = D.equation()
        cont = ctx.choose(2, 'cont') == 1
        tag = D.value('newtag') if ctx.choose(2, 'tag given') else None
        x, y = D.value('arg'), D.value('kwarg')
        D.extra = ([x], dict(key=y))
        f = 'some_method' if mtd else Fn()
        g = (lambda s: MTD(s, z3.IntVal(0))) if mtd else U
        kw = dict(key=y, cont=cont)
        if tag is not None:
            kw['tag'] = tag
        r0, old = side(o.fields['_rhs']), dict(o.fields)
        hist = {k: (to_fl(o.fields[k]).n, to_fl(o.fields[k]).get) for k in ('_prev_lhs', '_prev_rhs', '_prev_tags')}
        r = I.call_python(unwrap(getattr(Eq, name)), [o, f, x], kw)
        check(D, r, o, g(o.eff) if 'l' in on else o.eff, g(OPT.val(r0)) if 'r' in on else OPT.val(r0), OPT.none if tag is None else tag.t, cont)
        D.prove('equation itself unchanged', z3.BoolVal(all(o.fields[k] is old[k] for k in old) and all(
            o.fields[k].n is n and o.fields[k].get is g_ for k, (n, g_) in hist.items())))
    return t


def t_substitute(ctx):
    D, I = setup(ctx)
    o = D.equation()
    cont = ctx.choose(2, 'cont') == 1
    r0 = side(o.fields['_rhs'])
    r = I.call_python(Eq.substitute, [o, {}], dict(cont=cont, tag=None))
    check(D, r, o, SUBST(o.eff), SUBST(OPT.val(r0)), OPT.none, cont)


def t_set_tag(ctx):
    D, I = setup(ctx)
    o = D.equation()
    copy = ctx.choose(2, 'copy') == 1
    t = D.value('newtag')
    r = I.call_python(Eq.copy, [o], {}) if copy else I.call_python(Eq.set_tag, [o, t], {})
    D.prove('left side', side(r.fields['_lhs']) == side(o.fields['_lhs']))
    D.prove('right side', side(r.fields['_rhs']) == side(o.fields['_rhs']))
    D.prove('tag', side(r.fields['_tag']) == (side(o.fields['_tag']) if copy else t.t))
    for k in ('_prev_lhs', '_prev_rhs', '_prev_tags'):
        a, b = to_fl(r.fields[k]), o.fields[k]
        D.prove('history ' + k, zi(a.n) == zi(b.n))
        j = zi(D.int('j'))
        m = ctx.mark()
        ctx.assume(z3.And(j >= 0, j < zi(b.n)))
        D.prove('lines ' + k, side(a.get(j)) == side(b.get(j)))
        ctx.undo(m)


def t_accessors(ctx):
    D, I = setup(ctx)
    o = D.equation()
    D.prove('rhs', side(I.getattr(o, 'rhs')) == side(o.fields['_rhs']))
    D.prove('tag', side(I.getattr(o, 'tag')) == side(o.fields['_tag']))
    for k in FREE:
        s = I.getattr(o, k)
        s = s.t if isinstance(s, SymSet) else z3.EmptySet(z3.IntSort())
        D.prove(k, s == z3.SetUnion(FREE[k](o.eff), FREE[k](OPT.val(side(o.fields['_rhs'])))))
    s = I.getattr(o, 'all_symbols')
    s = s.t if isinstance(s, SymSet) else z3.EmptySet(z3.IntSort())
    u = z3.EmptySet(z3.IntSort())
    for k in FREE:
        u = z3.SetUnion(u, z3.SetUnion(FREE[k](o.eff), FREE[k](OPT.val(side(o.fields['_rhs'])))))
    D.prove('all symbols', s == u)


def t_verify(ctx):
    """the difference of the sides"""
    D, I = setup(ctx)
    o = D.equation()
    r0 = OPT.val(side(o.fields['_rhs']))
    f = ctx.choose(2, 'with function') == 1
    x, y = D.value('arg'), D.value('kwarg')
    D.extra = ([x], dict(key=y))
    r = I.call_python(Eq.verify, [o, Fn(), x] if f else [o], dict(key=y) if f else {})
    d = BIN['-'](SIMP(EXPAND(o.eff)), SIMP(EXPAND(r0)))
    D.prove('lhs - rhs', side(r) == some(U(d) if f else d))


def arith(name, op, swap=False, with_eq=True):
    def t(ctx):
        D, I = setup(ctx)
        o = D.equation()
        r0 = OPT.val(side(o.fields['_rhs']))
        other = D.equation('other') if with_eq and ctx.choose(2, 'equation') else D.value('other')
        xl, xr = (other.eff, OPT.val(side(other.fields['_rhs']))) if isinstance(other, Obj) else (OPT.val(other.t),) * 2
        r = I.call_python(Eq.__dict__[name], [o, other], {})
        if not (isinstance(r, Obj) and r.cls is Eq):
            raise Unsupported('result %r' % (r,))
        g = (lambda a, b: BIN[op](b, a)) if swap else BIN[op]
        D.prove('left side', side(r.fields['_lhs']) == some(g(o.eff, xl)))
        D.prove('right side', side(r.fields['_rhs']) == some(g(r0, xr)))
        D.prove('no tag', side(r.fields['_tag']) == OPT.none)
        D.prove('no history', zi(to_fl(r.fields['_prev_lhs']).n) == 0)
    return t


def t_eq(ctx):
    """equal equations have equal sides"""
    D, I = setup(ctx)
    a, b = D.equation(), D.equation('other')
    r = I.call_python(Eq.__eq__, [a, b], {})
    f = z3.And(a.eff == b.eff, side(a.fields['_rhs']) == side(b.fields['_rhs']))
    t = r.t if isinstance(r, SBool) else z3.BoolVal(I.truth(r))
    D.prove('both sides equal', t == f)


def t_dict(ctx):
    D, I = setup(ctx)
    o = D.equation()
    got = []
    D_eq = D.v(o.eff)
    f = Eq.as_dict.fget
    D.contracts[Eq.lhs.fget] = lambda D_, I_, a, kw: D_eq
    r = I.call_python(f, [o], {})
    items = list(r.items()) if isinstance(r, dict) else list(getattr(r, 'items', []))
    D.prove('lhs maps to rhs', z3.BoolVal(len(items) == 1 and items[0][0] is D_eq and items[0][1] is o.fields['_rhs']))


def tasks():
    yield 'Eq.lhs', t_lhs, where(Eq.lhs.fget)
    yield 'Eq.apply', applied('apply', 'lr'), where(Eq.apply)
    yield 'Eq.apply_to_lhs', applied('apply_to_lhs', 'l'), where(Eq.apply_to_lhs)
    yield 'Eq.apply_to_rhs', applied('apply_to_rhs', 'r'), where(Eq.apply_to_rhs)
    yield 'Eq.apply_mtd', applied('apply_mtd', 'lr', True), where(Eq.apply_mtd)
    yield 'Eq.apply_mtd_to_lhs', applied('apply_mtd_to_lhs', 'l', True), where(Eq.apply_mtd_to_lhs)
    yield 'Eq.apply_mtd_to_rhs', applied('apply_mtd_to_rhs', 'r', True), where(Eq.apply_mtd_to_rhs)
    yield 'Eq.substitute', t_substitute, where(Eq.substitute)
    yield 'Eq.set_tag, copy', t_set_tag, where(Eq.set_tag)
    yield 'Eq.rhs, tag, symbols', t_accessors, where(Eq.free_symbols.fget)
    yield 'Eq.verify', t_verify, where(Eq.verify)
    yield 'Eq.__add__', arith('__add__', '+'), where(Eq.__add__)
    yield 'Eq.__radd__', arith('__radd__', '+', True, False), where(Eq.__dict__['__radd__'])
    yield 'Eq.__sub__', arith('__sub__', '-'), where(Eq.__sub__)
    yield 'Eq.__mul__', arith('__mul__', '*', False, False), where(Eq.__mul__)
    yield 'Eq.__rmul__', arith('__rmul__', '*', True, False), where(Eq.__rmul__)
    yield 'Eq.__truediv__', arith('__truediv__', '/', False, False), where(Eq.__truediv__)
    yield 'Eq.__eq__', t_eq, where(Eq.__eq__)
    yield 'Eq.as_dict', t_dict, where(Eq.as_dict.fget)


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
