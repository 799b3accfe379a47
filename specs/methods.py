"""Contracts of the methods of the algebra classes.

Every distinct implementation of a method (found through the MRO of the
running classes) is executed on arbitrary instances of the classes that use it:

    __add__, __radd__, __sub__, __rsub__     den(result) = den(a) +- den(b)
    __mul__, __rmul__                        den(result) = den(a) * den(b)
    __truediv__, __pow__, __neg__
    _adjoint                                 den(result) = den(self)^*
    _expand, _simplify_scalar, doit ...      den(result) = den(self)
    _diff                                    den(result) = d den(self)

Python's protocol: returning NotImplemented (or raising one of the documented
exceptions) satisfies the contract."""
import sympy

from pyvc import live as L
from pyvc import nc
import z3
from pyvc.engine import Interp, PyRaise, Seq, Elem, Unsupported, run_task, Infeasible, Obligation
from pyvc import deriv
from pyvc.domain import contract, Domain, Obj, SPEC, IDX, sort_of_class, kind_cands, EMPTY, ZERO
from pyvc.source import unwrap, where

DOCUMENTED = ('CannotSimplify', 'TypeError', 'OverlappingSpaces', 'SpaceTooLargeError', 'UnequalSpaces', 'BasisNotSetError',
              'NotImplementedError', 'ZeroDivisionError', 'ValueError', 'AssertionError', 'AlgebraError')
ALG = sorted(L.SCALARS | L.OPS | L.STATES | L.SOPS, key=lambda c: c.__name__)
OPNAME = {'__add__': '+', '__radd__': '+', '__sub__': '-', '__rsub__': '-', '__mul__': '*', '__rmul__': '*', '__truediv__': '/',
          '__rtruediv__': '/', '__pow__': '**', '__rpow__': '**'}
GROUPS = {'scalar': L.SCALARS, 'op': L.OPS, 'ket': L.KETS, 'bra': L.BRAS, 'sop': L.SOPS}
NUMS = ('native', 'scalar')


def meaningful(op, g, og, refl):
    """combinations of sorts for which the operation has a meaning"""
    g, og = ('scalar' if x == 'native' else x for x in ((og, g) if refl else (g, og)))
    if op in '+-':
        return g == og or 'scalar' in (g, og) and {g, og} <= {'scalar', 'op', 'sop'}
    if op == '*':
        return 'scalar' in (g, og) or g == og or (g, og) in (('op', 'ket'), ('bra', 'op'), ('ket', 'bra'), ('bra', 'ket'), ('sop', 'op'))
    if op == '/':
        return og == 'scalar'
    return og == 'scalar' and g in ('scalar', 'op', 'sop')


def resolve(c, name):
    for k in c.__mro__:
        if name in k.__dict__:
            f = k.__dict__[name]
            return k, f
    return None, None


def implementations(name, classes=ALG):
    """{(owner, function): [classes]}"""
    out = {}
    for c in classes:
        k, f = resolve(c, name)
        if f is None or not k.__module__.startswith('qnet') or getattr(f, '__isabstractmethod__', False):
            continue
        if not callable(unwrap(f)):
            continue
        out.setdefault((k, f), []).append(c)
    return out


def expected_binop(D, op, x, y):
    try:
        return D.binop(D.I, op, x, y)
    except Unsupported:
        return None


def binary_task(name, owner, f, classes, other_group):
    def task(ctx):
        D = Domain(ctx)
        I = Interp(ctx, D)
        a = D.fresh('self', classes)
        b = D.fresh('other', GROUPS.get(other_group) or frozenset(L.NATIVE))
        try:
            r = I.call_python(f, [a, b], {})
        except PyRaise as e:
            if e.exc_type.__name__ in DOCUMENTED:
                ctx.obligations.append(Obligation('%s.%s: documented exception' % (owner.__name__, name), True, 'path'))
                return
            raise
        if r is NotImplemented:
            ctx.obligations.append(Obligation('%s.%s: declines' % (owner.__name__, name), True, 'path'))
            return
        x, y = (b, a) if name.startswith('__r') else (a, b)
        w = D.binop(I, OPNAME[name], x, y)
        if w is NotImplemented:
            raise Unsupported('no meaning for %s %s %s' % (x.sort, OPNAME[name], y.sort))
        o = D.lift(r)
        if o is None or o.den is None:
            raise Unsupported('result %r' % (r,))
        D.prove_eq('%s.%s denotes the %s of its operands' % (owner.__name__, name,
                   {'+': 'sum', '-': 'difference', '*': 'product', '/': 'quotient', '**': 'power'}[OPNAME[name]]), o.den, D.lift(w).den)
    return task


def keeps_value(x):
    """stand-in for the function given to simplify_scalar: it returns an equal scalar"""
    raise NotImplementedError


@contract(keeps_value)
def _keeps(D, I, args, kw):
    o = D.lift(args[0])
    return D.result('native' if o.cands <= frozenset(L.NATIVE) else 'scalar', o.den, EMPTY,
                    frozenset([sympy.Basic]) if o.cands <= frozenset(L.NATIVE) else L.SCALARS | frozenset([sympy.Basic]))


def unary_task(name, owner, f, classes, want, args=()):
    def task(ctx):
        D = Domain(ctx)
        I = Interp(ctx, D)
        if name in ('_diff', 'diff'):
            ctx.assume(z3.Not(z3.IsMember(deriv.SYMID, IDX)))
        a = D.fresh('self', classes)
        d = a.den
        try:
            r = I.call_python(f, [a] + [g(D) for g in args], {})
        except PyRaise as e:
            if e.exc_type.__name__ in DOCUMENTED:
                ctx.obligations.append(Obligation('%s.%s: documented exception' % (owner.__name__, name), True, 'path'))
                return
            raise
        o = D.lift(r)
        if o is None or o.den is None:
            raise Unsupported('result %r' % (r,))
        D.prove_eq('%s.%s %s' % (owner.__name__, name, want[0]), o.den, want[1](D, a, d))
    return task


def label(k, name, classes):
    n = sorted(c.__name__ for c in classes)
    return '%s.%s[%s]' % (k.__name__, name, n[0] if len(n) == 1 else '%s..%d' % (n[0], len(n)))


WANT = {
    '__neg__': ('denotes minus the operand', lambda D, a, d: -d),
    '_adjoint': ('denotes the adjoint', lambda D, a, d: D.norm(d).dual() if a.sort == 'sop' else d.adj()),
    '_expand': ('keeps the value', lambda D, a, d: d),
    '_simplify_scalar': ('keeps the value', lambda D, a, d: d),
    '_doit': ('keeps the value', lambda D, a, d: d),
    '_diff': ('is the derivative', lambda D, a, d: deriv.ddiff(D, d)),
    'diff': ('is the derivative', lambda D, a, d: deriv.ddiff(D, d)),
    'expand': ('keeps the value', lambda D, a, d: d),
    'simplify_scalar': ('keeps the value', lambda D, a, d: d),
    'adjoint': ('denotes the adjoint', lambda D, a, d: D.norm(d).dual() if a.sort == 'sop' else d.adj()),
    'dag': ('denotes the adjoint', lambda D, a, d: D.norm(d).dual() if a.sort == 'sop' else d.adj()),
    'conjugate': ('denotes the conjugate', lambda D, a, d: d.conj()),
}


def tasks(filter=None):
    out = []
    for name in OPNAME:
        for g, cs in GROUPS.items():
            for (k, f), classes in sorted(implementations(name, sorted(cs, key=lambda c: c.__name__)).items(), key=lambda z: z[0][0].__name__):
                for og in ('native', 'scalar', 'op', 'ket', 'bra', 'sop'):
                    if not meaningful(OPNAME[name], g, og, name.startswith('__r')):
                        continue
                    nm = label(k, name, classes) + ':' + og
                    if filter and not filter(g, name, nm):
                        continue
                    out.append((nm, binary_task(name, k, f, classes, og), where(f)))
    for name, want in WANT.items():
        for g, cs in GROUPS.items():
            for (k, f), classes in sorted(implementations(name, sorted(cs, key=lambda c: c.__name__)).items(), key=lambda z: z[0][0].__name__):
                nm = label(k, name, classes)
                if filter and not filter(g, name, nm):
                    continue
                args = ()
                if name in ('_simplify_scalar', 'simplify_scalar'):
                    args = (lambda D: keeps_value,)
                elif name in ('_diff', 'diff'):
                    args = (lambda D: deriv.SYM,)
                elif name == '_doit':
                    args = (lambda D: None, lambda D: True)
                out.append((nm, unary_task(name, k, f, classes, want, args), where(f)))
    return out


if __name__ == '__main__':
    import sys
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    import multiprocessing as mp
    ts = [(n, t) for n, t, w in tasks() if pat in n]

    def one(i):
        try:
            r = run_task(ts[i][0], ts[i][1])
        except Exception as x:
            import traceback
            return i, 'error', 0, 0, 0, traceback.format_exc()[-300:].replace('\n', ' | '), []
        return i, r.status, r.paths, len(r.obligations), r.secs, r.reason, [(o.name, o.detail, o.path) for o in r.failed()[:3]]
    st = {}
    with mp.get_context('fork').Pool(6) as p:
        for i, s, paths, nob, secs, reason, failed in p.imap(one, range(len(ts))):
            st[s] = st.get(s, 0) + 1
            print('%-60s %-9s paths=%d obl=%d %.1fs %s' % (ts[i][0], s, paths, nob, secs, (reason or '')[:200]))
            for o in failed:
                print('    FAIL', o[0], '|', o[1][:400], '|', o[2][:300])
    print(st)
