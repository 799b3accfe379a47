"""Contracts of the class methods `create` that are overridden, and of the
simplifications that look at the operands themselves (C05, C07-C10):
the value of the result is the value of the class applied to the arguments."""
import sys
import importlib
from pyvc import live as L
import z3
from pyvc.engine import Interp, PyRaise, Seq, Elem, Unsupported, run_task, Infeasible, Obligation, SBool, Sym
from pyvc.domain import Domain, SPEC, EMPTY
from pyvc.source import where, unwrap
AP = importlib.import_module('qnet.algebra.core.algebraic_properties')
ORD = importlib.import_module('qnet.utils.ordering')
OPA = importlib.import_module('qnet.algebra.core.operator_algebra')
STA = importlib.import_module('qnet.algebra.core.state_algebra')
SCA = importlib.import_module('qnet.algebra.core.scalar_algebra')
SOP = importlib.import_module('qnet.algebra.core.super_operator_algebra')
DOCUMENTED = ('TypeError', 'ValueError', 'OverlappingSpaces', 'UnequalSpaces', 'SpaceTooLargeError', 'CannotSimplify', 'AssertionError')
GROUP = {'op': L.OPS, 'ket': L.KETS, 'bra': L.BRAS, 'scalar': L.SCALARS, 'sop': L.SOPS, 'native': frozenset(L.NATIVE)}


class KeyV(Sym):
    """an ordering key: any order"""


class CDomain(Domain):
    def call(self, I, f, args, kwargs):
        if isinstance(f, type) and issubclass(f, (ORD.DisjunctCommutativeHSOrder, ORD.FullCommutativeHSOrder)):
            return KeyV()
        return Domain.call(self, I, f, args, kwargs)

    def compare(self, I, name, a, b):
        if isinstance(a, KeyV) and isinstance(b, KeyV):
            return SBool(z3.Bool(self.ctx.fresh('key_order')))
        return Domain.compare(self, I, name, a, b)


class CInterp(Interp):
    def contains(self, c, x):
        if c is SCA.Scalar._invalid:       # infinities: a ValueError
            return SBool(z3.Bool(self.ctx.fresh('invalid')))
        return super().contains(c, x)


def documented(e, ctx):
    if e.exc_type.__name__ in DOCUMENTED:
        ctx.obligations.append(Obligation('documented exception', True, 'path'))
        return True
    return False


def start(ctx):
    D = CDomain(ctx)
    return D, CInterp(ctx, D)


def t_create(cls):
    """cls.create(*args, **kwargs) has the value of the instance with these arguments"""
    f = cls.create.__func__

    def t(ctx):
        D, I = start(ctx)
        o = D.fresh('instance', frozenset([cls]))
        args = I.getattr(o, 'args')
        from pyvc.engine import _Star
        args = list(args.values()) if isinstance(args, Seq) and args.concrete() else [_Star(args)] if isinstance(args, Seq) else list(args)
        try:
            r = I.call_python(f, [cls] + args, {})
        except PyRaise as e:
            if documented(e, ctx):
                return
            raise
        D.prove_eq('%s.create keeps the value' % cls.__name__, D.lift(r).den, o.den)
    return t


def t_scaled(cls, group, coeff='scalar'):
    """cls.create(coeff, term) is coeff*term"""
    f = cls.create.__func__

    def t(ctx):
        D, I = start(ctx)
        c, x = D.fresh('coeff', GROUP[coeff]), D.fresh('term', GROUP[group])
        r = I.call_python(f, [cls, c, x], {})
        w = D.binop(I, '*', c, x)
        D.prove_eq('%s.create is the multiple of its term' % cls.__name__, D.lift(r).den, D.lift(w).den)
    return t


def t_indexed_bra(ctx):
    D, I = start(ctx)
    from pyvc.engine import _Star
    o = D.fresh('instance', frozenset([STA.KetIndexedSum]))
    args = I.getattr(o, 'args')
    ch = args.chunks if isinstance(args, Seq) else [Elem(x) for x in args]
    bra = I.call(STA.Bra.create, [I.getattr(o, 'term')], {})
    r = I.call_python(STA.KetIndexedSum.create.__func__, [STA.KetIndexedSum, bra, _Star(I.getattr(o, 'ranges'))], {})
    D.prove_eq('the sum of bras is the bra of the sum', D.lift(r).den, o.den.adj())


def t_value(kind):
    def t(ctx):
        D, I = start(ctx)
        v = D.fresh('val', GROUP[kind])
        try:
            r = I.call_python(SCA.ScalarValue.create.__func__, [SCA.ScalarValue, v], {})
        except PyRaise as e:
            if documented(e, ctx):
                return
            raise
        D.prove_eq('ScalarValue.create keeps the value', D.lift(r).den, D.lift(v).den)
    return t


def t_pair(f, cls):
    """a simplification of the two operands keeps the value of the class"""
    def t(ctx):
        D, I = start(ctx)
        sp = SPEC[cls.__name__]
        args = [D.fresh(n, GROUP[s]) for n, s in sp.pos]
        kw = {}
        r = I.call_python(f, [cls, list(args), kw], {})
        want = sp.den(D, D.bind_spec(cls.__name__, sp, args, {}))
        if isinstance(r, tuple):
            ops = r[0].values() if isinstance(r[0], Seq) else r[0]
            got = sp.den(D, D.bind_spec(cls.__name__, sp, list(ops), {}))
        else:
            got = D.lift(r).den
        D.prove_eq('%s keeps the value of %s' % (f.__name__, cls.__name__), got, want)
    return t


def tasks():
    for c in (OPA.ScalarTimesOperator, STA.ScalarTimesKet, SOP.ScalarTimesSuperOperator):
        for g in ({'ScalarTimesKet': ('ket', 'bra')}.get(c.__name__, (SPEC[c.__name__].sort,))):
            for k in ('scalar', 'native'):
                yield 'create.%s(%s, %s)' % (c.__name__, k, g), t_scaled(c, g, k), where(c.create.__func__)
    yield 'create.KetIndexedSum(bra)', t_indexed_bra, where(STA.KetIndexedSum.create.__func__)
    for k in ('native', 'scalar'):
        yield 'create.ScalarValue(%s)' % k, t_value(k), where(SCA.ScalarValue.create.__func__)
    for c in (SCA.ScalarTimes, SCA.ScalarIndexedSum, STA.KetIndexedSum):
        yield 'create.%s' % c.__name__, t_create(c), where(c.create.__func__)
    yield 'commutator_order', t_pair(AP.commutator_order, OPA.Commutator), where(AP.commutator_order)
    yield 'disjunct_hs_zero', t_pair(AP.disjunct_hs_zero, OPA.Commutator), where(AP.disjunct_hs_zero)


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
