"""Contract of every algebraic rewrite rule.

For each class with a `_rules` / `_binary_rules` table, read from the running
code: the rule's pattern is turned into an arbitrary matching argument tuple,
and the obligation is

    replacement(match)   denotes   cls(*matching args)

for all matches (postcondition of the replacement function); raising
CannotSimplify is always allowed."""
import sympy

from pyvc import live as L
from pyvc import nc
from pyvc.engine import Interp, PyRaise, Seq, Elem, Unsupported, run_task, Infeasible, Obligation
from pyvc.domain import Domain, Obj, SPEC, sort_of_class, kind_cands, SINGLETON, EMPTY
import z3

ALLOWED = ('CannotSimplify', 'AlgebraError')


def expand_head(head):
    heads = head if isinstance(head, (tuple, list)) else (head,)
    out = set()
    for h in heads:
        if h in L.NATIVE or h is str:
            out.add(h)
            continue
        for group in (L.SCALARS, L.OPS, L.STATES, L.SOPS, L.HSS, L.LABELS, L.RANGES, L.CIRCS):
            for c in group:
                if isinstance(c, type) and issubclass(c, h):
                    out.add(c)
    if any(isinstance(h, type) and issubclass(sympy.Basic, h) for h in heads):
        out.add(sympy.Basic)
    return frozenset(out)


class Match:
    """arbitrary values matching a pattern"""

    def __init__(self, D):
        self.D = D
        self.bind = {}
        self.n = 0

    def name(self, base):
        self.n += 1
        return '%s%d' % (base, self.n)

    def inst(self, pat, kind, top=False):
        D = self.D
        if not isinstance(pat, L.PM.Pattern):
            if isinstance(pat, (int, float, complex)) and not isinstance(pat, bool):
                # any scalar that compares equal to the literal
                if kind == 'label':
                    return D.lift(pat)
                cands = L.SCALARS | (frozenset(L.NATIVE) if top else frozenset())
                return D.result('scalar', nc.lift(pat), EMPTY, cands)
            return pat
        if pat.wc_name is not None and pat.wc_name in self.bind:
            old = self.bind[pat.wc_name]
            if pat.head is not None:
                heads = expand_head(pat.head)
                if isinstance(old, Obj):
                    D.narrow(old, heads)
            if isinstance(old, Obj) and kind == 'spinls':
                D.narrow(old, kind_cands(kind))
            return old
        if pat.mode > 1:
            cands = kind_cands(kind)
            if pat.head is not None:
                cands = cands & expand_head(pat.head)
            if pat.args is not None or pat.kwargs is not None or pat.conditions:
                raise Unsupported('structured repeated wildcard')
            seg = D.make_seg('m_' + (pat.wc_name or self.name('w')), kind, cands)
            D.ctx.assume(seg.n >= (1 if pat.mode == 2 else 0))
            v = Seq([seg], 'list')
            if pat.wc_name:
                self.bind[pat.wc_name] = v
            return v
        if pat.conditions:
            raise Unsupported('pattern with conditions')
        cands = kind_cands(kind)
        if kind == 'scalar' and top:
            cands = cands | frozenset(L.NATIVE)
        if pat.head is not None:
            cands = cands & expand_head(pat.head)
        if not cands:
            raise Infeasible()
        nm = pat.wc_name or self.name('p')
        if pat.args is None and pat.kwargs is None:
            v = D.fresh(nm, cands)
        else:
            v = self.structured(nm, pat, cands)
        if pat.wc_name:
            self.bind[pat.wc_name] = v
        return v

    def structured(self, nm, pat, cands):
        D = self.D
        cs = sorted(cands, key=lambda c: c.__name__)
        c = cs[D.ctx.choose(len(cs), 'class of ' + nm)]
        if c.__name__ not in SPEC:
            raise Unsupported('pattern on class %s without structure' % c.__name__)
        sp = SPEC[c.__name__]
        a = self.args(c.__name__, sp, pat.args, pat.kwargs)
        o = Obj(nm, {c}, sp.sort, None, None, {})
        o.refined = sp
        if sp.pre:
            for f in sp.pre(D, a):
                D.ctx.assume(f)
        o.den = sp.den(D, a)
        o.hset = sp.hset(D, a) if sp.hset else EMPTY
        o.attrs = a
        return o

    def args(self, nm, sp, pargs, pkwargs, top=False):
        """values for the constructor arguments, constrained by the patterns"""
        D = self.D
        a = {}
        pargs = None if pargs is None else list(pargs)
        for i, (n, kind) in enumerate(sp.pos):
            if pargs is None:
                a[n] = D.fresh_sort(self.name(nm + '.' + n), 'hs' if kind in ('ls', 'spinls') else kind, kind_cands(kind))
            else:
                if i >= len(pargs):
                    raise Infeasible()
                a[n] = self.inst(pargs[i], kind, top)
        if sp.var:
            n, kind = sp.var
            if pargs is None:
                a[n] = Seq([D.make_seg(self.name(nm + '.' + n), kind, kind_cands(kind))], 'tuple')
            else:
                chunks = []
                for p in pargs[len(sp.pos):]:
                    v = self.inst(p, kind, top)
                    if isinstance(v, Seq):
                        chunks.extend(v.chunks)
                    else:
                        chunks.append(Elem(v))
                a[n] = Seq(chunks, 'tuple')
        elif pargs is not None and len(pargs) > len(sp.pos):
            raise Infeasible()
        pk = dict(pkwargs or {})
        for n, kind in sp.kw:
            if n in pk:
                a[n] = self.inst(pk.pop(n), kind, top)
            elif kind == 'sign':
                a[n] = Obj(nm + '.sign', {int}, 'scalar', nc.var('sign_' + nm, integer=True), EMPTY)
            else:
                a[n] = D.fresh_sort(self.name(nm + '.' + n), 'hs' if kind in ('ls', 'spinls') else kind, kind_cands(kind))
        if pk:
            raise Infeasible()
        for n in a:
            v = a[n]
            if not isinstance(v, (Obj, Seq)):
                a[n] = D.lift(v)
        return a


def run_replacement(D, I, repl, m):
    """None when the rule declines"""
    try:
        return I.call(repl, [], dict(m.bind)), True
    except PyRaise as e:
        if e.exc_type.__name__ in ALLOWED:
            return None, False
        raise


def rule_task(cls, name, rule, binary):
    pat, repl = rule

    def task(ctx):
        D = Domain(ctx)
        I = Interp(ctx, D)
        m = Match(D)
        nm = cls.__name__
        sp = SPEC[nm]
        if binary:
            sort = sp.var[1]
            a = m.inst(pat.args[0], sort, top=True)
            b = m.inst(pat.args[1], sort, top=True)
            ops = [D.lift(a), D.lift(b)]
            aa = {sp.var[0]: Seq([Elem(x) for x in ops], 'tuple')}
        else:
            aa = m.args(nm, sp, pat.args, pat.kwargs, top=True)
        if sp.pre:
            for f in sp.pre(D, aa):
                ctx.assume(f)
        lhs = sp.den(D, aa)
        res, ok = run_replacement(D, I, repl, m)
        if not ok:
            ctx.obligations.append(Obligation('%s.%s: declines' % (nm, name), True, 'path'))
            return
        r = D.lift(res if not isinstance(res, int) or sp.sort == 'scalar' else None)
        if r is None or r.den is None:
            raise Unsupported('result %r' % (res,))
        D.prove_eq('%s rule %s preserves the denoted value' % (nm, name), r.den, lhs)
    return task


CLASSES = []
for _m in (L.SA, L.OA, L.STA, L.SOA, L.FO, L.SPA, L.PAU):
    for _n in dir(_m):
        _c = getattr(_m, _n)
        if isinstance(_c, type) and _c not in CLASSES and _c.__module__.startswith('qnet'):
            CLASSES.append(_c)


def all_rules(classes=None):
    """(class, table, name, rule) of every rule in the running code"""
    for c in classes or CLASSES:
        for attr in ('_rules', '_binary_rules'):
            tab = c.__dict__.get(attr)
            if not tab:
                continue
            for k, rule in tab.items():
                yield c, attr, k, rule


def tasks(filter=None):
    out = []
    for c, attr, k, rule in all_rules():
        if c.__name__ not in SPEC:
            continue
        name = '%s.%s[%s]' % (c.__name__, attr, k)
        if filter and not filter(c, attr, k):
            continue
        out.append((name, rule_task(c, k, rule, attr == '_binary_rules')))
    return out


if __name__ == '__main__':
    import sys
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    for name, t in tasks():
        if pat not in name:
            continue
        r = run_task(name, t)
        print('%-45s %-9s paths=%d obl=%d %.1fs %s' % (name, r.status, r.paths, len(r.obligations), r.secs, r.reason))
        for o in r.failed()[:3]:
            print('    FAIL', o.name, '|', o.detail[:600], '|', o.path)
