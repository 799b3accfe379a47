"""The derivative with respect to one real parameter, as a derivation on normal forms.

d is linear, satisfies the product rule, commutes with the adjoint (the
parameter is real), with sums, traces and the application of super-operators,
and vanishes on everything whose value does not depend on the parameter.
Letters and atoms nothing more is known about get a formal derivative d[.]."""
import sympy
import z3

from . import nc
from .nc import P, ZERO, ONE

SYM = sympy.Symbol('s_', real=True)
SYMID = z3.Int('sym_diff')
CONST_KINDS = ('Create', 'Destroy', 'Jz', 'Jplus', 'Jminus', 'K', 'Kb')


def W(w):
    return P({((), tuple(w)): nc.CQ(1)})


def ddiff(D, p, normed=False):
    if not normed:
        p = D.norm(p)
    out = ZERO
    for (m, w), c in p.t.items():
        cc = P({((), ()): c})
        for i, (k, e) in enumerate(m):
            if indep(D, k):
                continue
            rest = P({(tuple(x for j, x in enumerate(m) if j != i), ()): nc.CQ(1)})
            a = nc._atom_P(nc.ATOMS[k])
            pw = a ** (e - 1) if e >= 1 else nc.inverse(a) ** (1 - e)
            out = out + cc * P.const(e) * rest * pw * datom(D, k) * W(w)
        mm = P({(m, ()): nc.CQ(1)})
        for i, k in enumerate(w):
            if indep(D, k):
                continue
            out = out + cc * mm * W(w[:i]) * dletter(D, k) * W(w[i + 1:])
    return out


def indep(D, k):
    return D.entails_cached(z3.Not(z3.IsMember(SYMID, D.dep(k))))


def datom(D, k):
    a = nc.ATOMS[k]
    if a.integer or a.kind in ('delta', 'ind'):
        return ZERO
    if a.kind == 'exp':
        return nc._atom_P(a) * ddiff(D, a.args[0])
    if a.kind == 'sqrt':
        return ddiff(D, a.args[0]) * nc.inverse(P.const(2) * nc._atom_P(a))
    if a.kind == 'poly':
        return ddiff(D, a.args[0])
    if a.kind == 'scal':
        return D.norm(ddiff(D, W(a.args[0]), normed=True))
    if getattr(a, 'tr', None):
        w, hs = a.tr
        return D.trace_den(D.norm(ddiff(D, W(w), normed=True)), hs)
    if getattr(a, 'isum', None):
        body, comps = a.isum
        return D.isum(D.norm(ddiff(D, body)), comps)
    if a.kind == 'fn' and a.args[0] == 'pow':
        b, e = a.args[1:]
        de = D.norm(ddiff(D, e))
        if de.is_zero():
            return e * nc.power(b, e - ONE) * ddiff(D, b)
    return formal_atom(D, k)


def formal_atom(D, k):
    a = nc.ATOMS[k]
    if a.conj_key and a.conj_key in nc.ATOMS and (k.endswith('~') or a.conj_key < k and not a.conj_key.endswith('~')):
        return formal_atom(D, a.conj_key).conj() if a.conj_key != k else _mk(D, k)
    return _mk(D, k)


def _mk(D, k):
    a = nc.ATOMS[k]
    nm = 'd[%s]' % k
    if nm in nc.ATOMS:
        return nc._atom_P(nc.ATOMS[nm])
    p = nc.var(nm, real=a.real)
    me = nc._atom_P(a)

    def rebuild(sub, conj=False):
        q = nc._subst_atom(k, sub)
        if q == me:
            return nc._atom_P(nc.ATOMS[nm + '~' if conj else nm])
        r = ddiff(D, q)
        return r.conj() if conj else r
    at = nc.ATOMS[nm]
    at.rebuild = rebuild
    at.dep_key = k
    if not a.real:
        at = nc.ATOMS[nm + '~']
        at.rebuild = lambda sub: rebuild(sub, True)
        at.dep_key = k
    return p


def dletter(D, k):
    l = nc.LETTERS[k]
    mt = l.meta or {}
    kind = mt.get('kind')
    if kind in CONST_KINDS:
        return ZERO
    if kind == 'Displace':
        from .reduce import local_op
        al = mt['args'][0]
        ac = al.conj()
        da, dc = ddiff(D, al), ddiff(D, ac)
        cr, de = (local_op(x, mt['ls'], mt['support']) for x in ('Create', 'Destroy'))
        half = P.const(nc.F(1, 2))
        return (da * cr - dc * de + half * (al * dc - ac * da)) * W((k,))
    if 'side' in mt:
        from .domain import _Lmap
        return _Lmap(D, ddiff(D, W((mt['of'],))), mt['side'])
    if mt.get('isum'):
        body, comps = mt['isum']
        return D.isum(D.norm(ddiff(D, body)), comps)
    if mt.get('app'):
        s, w = mt['app']
        r = D.sapply(D.norm(dletter(D, s)), W(w)) if not indep(D, s) else ZERO
        r = r + D.sapply(W((s,)), D.norm(ddiff(D, W(w), normed=True)))
        return r.adj() if l.is_adj else r
    if mt.get('tr'):
        w, hs = mt['tr']
        return D.trace_den(D.norm(ddiff(D, W(w), normed=True)), hs)
    if l.is_adj and l.base != k:
        q = dletter(D, l.base)
        return q.dual() if l.sort == 'sop' else q.adj()
    if l.is_adj and l.adj_key and l.adj_key != k:
        q = dletter(D, l.adj_key)
        return q.dual() if l.sort == 'sop' else q.adj()
    nm = 'd[%s]' % k
    if nm not in nc.LETTERS:
        me = W((k,))

        def rebuild(sub, lt):
            q = nc._subst_letter(k, sub)
            if q == me:
                return W((lt.key,))
            r = ddiff(D, q)
            return (r.dual() if l.sort == 'sop' else r.adj()) if lt.key != nm else r
        nc.letter(nm, l.sort, support=l.support, herm=l.herm, meta=dict(rebuild=rebuild, parts=[k]))
        if not l.herm:
            # a self-adjoint pair keeps its own keys
            pass
    return W((nm,))
