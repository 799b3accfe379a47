"""Contracts for QNET values: what a symbolic object denotes, and what the
public operations promise about denotations.  A caller is checked against
these contracts, never against the callee's body; every contract used here is
itself the postcondition of some task in /verif/specs (see contracts_used in
the evidence)."""
import ast
import copy
import inspect
import types

import z3
import sympy

from . import live as L
from . import nc
from .nc import P, ONE, ZERO, lift
from .engine import (Sym, SInt, SBool, SymStr, Seq, Elem, Seg, MSeg, SDict, BoundMethod, SuperProxy, IFunc,
                     Unsupported, Infeasible, PyRaise, Obligation, _Star, _ExcVal, is_sym, Env)
from .reduce import Reducer, basis_ket, local_op, delta_normal, spin, word
from . import source as SRC
from . import loops
from . import deriv
from .source import unwrap, where

ZS = z3.SetSort(z3.IntSort())
EMPTY = z3.EmptySet(z3.IntSort())
FULL = z3.FullSet(z3.IntSort())
IDX = z3.Const('IDX', ZS)          # all index symbols

SORT_CANDS = {'op': L.OPS, 'ket': L.KETS, 'bra': L.BRAS, 'sop': L.SOPS, 'scalar': L.SCALARS,
              'native': frozenset(L.NATIVE), 'label': L.LABELS, 'hs': L.HSS, 'range': L.RANGES,
              'circ': L.CIRCS, 'sym': frozenset([sympy.Symbol]), 'opaque': frozenset()}
SINGLETON = {}
for _o in (L.OA.IdentityOperator, L.OA.ZeroOperator, L.STA.ZeroKet, L.STA.TrivialKet, L.SA.Zero, L.SA.One,
           L.SOA.IdentitySuperOperator, L.SOA.ZeroSuperOperator, L.HSA.TrivialSpace, L.HSA.FullSpace):
    SINGLETON[type(_o)] = _o
SING_DEN = {'IdentityOperator': ONE, 'ZeroOperator': ZERO, 'ZeroKet': ZERO, 'TrivialKet': ONE, 'Zero': ZERO,
            'One': ONE, 'IdentitySuperOperator': ONE, 'ZeroSuperOperator': ZERO}
NUMERIC = (int, float, complex)


def sort_of_class(c):
    if c.__name__ == 'Bra':
        return 'bra'
    for base, s in ((L.SA.Scalar, 'scalar'), (L.OA.Operator, 'op'), (L.STA.State, 'ket'),
                    (L.SOA.SuperOperator, 'sop'), (L.HSA.HilbertSpace, 'hs'), (L.CA.Circuit, 'circ'),
                    (L.SYMLABEL, 'label'), (L.IDX.IndexRangeBase, 'range')):
        if issubclass(c, base):
            return s
    if c in L.NATIVE or issubclass(c, sympy.Basic):
        return 'native'
    if c is str:
        return 'label'
    return None


class Obj(Sym):
    """an arbitrary QNET value: possible classes, denotation, support"""

    def __init__(self, name, cands, sort, den=None, hset=None, attrs=None):
        self.name, self.cands, self.sort = name, frozenset(cands), sort
        self.den, self.hset = den, hset
        self.attrs = attrs or {}
        self.refined = None
        self.neq = ()

    def __repr__(self):
        return '<%s:%s %s>' % (self.name, self.sort, self.den)

    __hash__ = object.__hash__
    __eq__ = object.__eq__


class SSet(Sym):
    """symbolic set (of symbols) as a z3 set"""

    def __init__(self, t):
        self.t = t


class ClassOf(Sym):
    def __init__(self, obj):
        self.obj = obj


class SDen(Sym):
    pass


# ---------------------------------------------------------------------------
# structure: how a class's public arguments determine its denotation

class Spec:
    def __init__(self, sort, pos=(), var=None, kw=(), den=None, hset=None, pre=None, alias=(), extra=None):
        self.sort, self.pos, self.var, self.kw = sort, pos, var, kw
        self.den, self.hset, self.pre, self.alias, self.extra = den, hset, pre, dict(alias), extra


SPEC = {}


def union(*s):
    r = EMPTY
    for x in s:
        r = z3.SetUnion(r, x)
    return r


def _first(*names):
    return lambda D, a: union(*[a[n].hset for n in names])


def _loc(kind):
    return lambda D, a: local_op(kind, a['hs'].name, a['hs'].hset, *[D.num(a[k]) for k in a['_args']])


def _sum(D, a):
    return D.fold(a['operands'], 'sum')


def _prod(D, a):
    return D.fold(a['operands'], 'prod')


def _hs_of_seq(D, a):
    return D.seq_hset(a['operands'])


def _disjoint_seq(D, a):
    vals = [c.v for c in a['operands'].chunks if isinstance(c, Elem)]
    out = []
    for i, x in enumerate(vals):
        for y in vals[:i]:
            out.append(z3.SetIntersect(x.hset, y.hset) == EMPTY)
    return out


def _Lmap(D, p, side):
    """left / right multiplication superoperator of an operator element"""
    out = ZERO
    for (m, w), c in p.t.items():
        ls = [D.lr_letter(side, k) for k in w]
        if side == 'R':
            ls = ls[::-1]
        out = out + P({(m, tuple(ls)): c})
    return out


SPEC['ScalarTimesOperator'] = Spec('op', [('coeff', 'scalar'), ('term', 'op')],
                                   den=lambda D, a: D.num(a['coeff']) * a['term'].den, hset=_first('term'))
SPEC['ScalarTimesKet'] = Spec('ket', [('coeff', 'scalar'), ('term', 'ket')],
                              den=lambda D, a: D.num(a['coeff']) * a['term'].den, hset=_first('term'))
SPEC['ScalarTimesSuperOperator'] = Spec('sop', [('coeff', 'scalar'), ('term', 'sop')],
                                        den=lambda D, a: D.num(a['coeff']) * a['term'].den, hset=_first('term'))
for _n, _s in (('Operator', 'op'), ('Ket', 'ket'), ('SuperOperator', 'sop'), ('Scalar', 'scalar')):
    SPEC[_n + 'Plus'] = Spec(_s, var=('operands', _s), den=_sum, hset=_hs_of_seq)
    if _n != 'Ket':
        SPEC[_n + 'Times'] = Spec(_s, var=('operands', _s), den=_prod, hset=_hs_of_seq)
SPEC['TensorKet'] = Spec('ket', var=('operands', 'ket'), den=_prod, hset=_hs_of_seq, pre=_disjoint_seq)
SPEC['ScalarPower'] = Spec('scalar', [('base', 'scalar'), ('exp', 'scalar')],
                           den=lambda D, a: D.powden(a['base'], a['exp']))
SPEC['Bra'] = Spec('bra', [('ket', 'ket')], den=lambda D, a: a['ket'].den.adj(), hset=_first('ket'),
                   alias=[('operand', 'ket'), ('_operand', 'ket')])
SPEC['Adjoint'] = Spec('op', [('operand', 'op')], den=lambda D, a: a['operand'].den.adj(), hset=_first('operand'))
SPEC['SuperAdjoint'] = Spec('sop', [('operand', 'sop')], den=lambda D, a: D.norm(a['operand'].den).dual(),
                            hset=_first('operand'))
SPEC['SPre'] = Spec('sop', [('operand', 'op')], den=lambda D, a: _Lmap(D, D.norm(a['operand'].den), 'L'),
                    hset=_first('operand'))
SPEC['SPost'] = Spec('sop', [('operand', 'op')], den=lambda D, a: _Lmap(D, D.norm(a['operand'].den), 'R'),
                     hset=_first('operand'))
SPEC['SuperOperatorTimesOperator'] = Spec(
    'op', [('sop', 'sop'), ('op', 'op')], den=lambda D, a: D.sapply(D.norm(a['sop'].den), D.norm(a['op'].den)),
    hset=_first('sop', 'op'))
SPEC['OperatorTimesKet'] = Spec('ket', [('operator', 'op'), ('ket', 'ket')],
                                den=lambda D, a: a['operator'].den * a['ket'].den, hset=_first('ket'),
                                pre=lambda D, a: [z3.IsSubset(a['operator'].hset, a['ket'].hset)])
SPEC['BraKet'] = Spec('scalar', [('bra_', 'ket'), ('ket', 'ket')],
                      den=lambda D, a: D.norm(a['bra_'].den.adj() * a['ket'].den),
                      pre=lambda D, a: D.same_space(a['bra_'], a['ket']))
SPEC['KetBra'] = Spec('op', [('ket', 'ket'), ('bra_', 'ket')],
                      den=lambda D, a: a['ket'].den * a['bra_'].den.adj(), hset=_first('ket', 'bra_'),
                      pre=lambda D, a: D.same_space(a['ket'], a['bra_']))
SPEC['Commutator'] = Spec('op', [('A', 'op'), ('B', 'op')],
                          den=lambda D, a: a['A'].den * a['B'].den - a['B'].den * a['A'].den, hset=_first('A', 'B'))
SPEC['OperatorPlusMinusCC'] = Spec(
    'op', [('operand', 'op')], kw=[('sign', 'sign')],
    den=lambda D, a: a['operand'].den + D.num(a['sign']) * a['operand'].den.adj(), hset=_first('operand'))
SPEC['LocalSigma'] = Spec(
    'op', [('j', 'label'), ('k', 'label')], kw=[('hs', 'ls')],
    den=lambda D, a: basis_ket(a['hs'].name, a['hs'].hset, D.idx(a['j'])) *
    basis_ket(a['hs'].name, a['hs'].hset, D.idx(a['k']), adj=True), hset=_first('hs'))
SPEC['LocalProjector'] = Spec(
    'op', [('j', 'label')], kw=[('hs', 'ls')],
    den=lambda D, a: basis_ket(a['hs'].name, a['hs'].hset, D.idx(a['j'])) *
    basis_ket(a['hs'].name, a['hs'].hset, D.idx(a['j']), adj=True), hset=_first('hs'))
SPEC['BasisKet'] = Spec('ket', [('label', 'label')], kw=[('hs', 'ls')],
                        den=lambda D, a: basis_ket(a['hs'].name, a['hs'].hset, D.idx(a['label'])),
                        hset=_first('hs'))
for _n in ('Create', 'Destroy', 'Jz', 'Jplus', 'Jminus'):
    SPEC[_n] = Spec('op', kw=[('hs', 'spinls' if _n[0] == 'J' else 'ls')], hset=_first('hs'),
                    den=(lambda k: lambda D, a: local_op(k, a['hs'].name, a['hs'].hset))(_n))
SPEC['Phase'] = Spec('op', [('phase', 'scalar')], kw=[('hs', 'ls')], hset=_first('hs'),
                     den=lambda D, a: local_op('Phase', a['hs'].name, a['hs'].hset, D.num(a['phase'])))
SPEC['Displace'] = Spec('op', [('displacement', 'scalar')], kw=[('hs', 'ls')], hset=_first('hs'),
                        den=lambda D, a: local_op('Displace', a['hs'].name, a['hs'].hset, D.num(a['displacement'])))
SPEC['Squeeze'] = Spec('op', [('squeezing_factor', 'scalar')], kw=[('hs', 'ls')], hset=_first('hs'),
                       den=lambda D, a: local_op('Squeeze', a['hs'].name, a['hs'].hset,
                                                 D.num(a['squeezing_factor'])))
SPEC['CoherentStateKet'] = Spec(
    'ket', [('ampl', 'scalar')], kw=[('hs', 'ls')], hset=_first('hs'),
    den=lambda D, a: local_op('Displace', a['hs'].name, a['hs'].hset, D.num(a['ampl'])) *
    basis_ket(a['hs'].name, a['hs'].hset, 0))
SPEC['OperatorTrace'] = Spec('op', [('operand', 'op')], kw=[('over_space', 'hs')],
                             den=lambda D, a: D.trace(a['operand'], a['over_space']),
                             hset=lambda D, a: z3.SetDifference(a['operand'].hset, a['over_space'].hset),
                             alias=[('_over_space', 'over_space')])
SPEC['PseudoInverse'] = Spec('op', [('operand', 'op')], den=lambda D, a: D.pinv(a['operand']), hset=_first('operand'))
SPEC['NullSpaceProjector'] = Spec('op', [('operand', 'op')],
                                  den=lambda D, a: D.nullproj(a['operand']), hset=_first('operand'))
for _n, _s in (('Operator', 'op'), ('Ket', 'ket'), ('Scalar', 'scalar')):
    SPEC[_n + 'IndexedSum'] = Spec(_s, [('term', _s)], var=('ranges', 'range'),
                                   den=lambda D, a: D.indexed_sum(a['term'], a['ranges']), hset=_first('term'))
SPEC['KroneckerDelta'] = Spec('scalar', [('i', 'label'), ('j', 'label')],
                              den=lambda D, a: nc.delta(D.idx(a['i']), D.idx(a['j'])))
for _n, _s in (('Operator', 'op'), ('State', 'ket'), ('Scalar', 'scalar'), ('SuperOperator', 'sop')):
    SPEC[_n + 'Derivative'] = Spec(_s, [('operand', _s)], kw=[('derivs', 'opaque'), ('vals', 'opaque')],
                                   den=lambda D, a: D.pderiv(a['operand'], a['derivs'], a['vals']),
                                   hset=None if _s == 'scalar' else _first('operand'))
SPEC['ScalarValue'] = Spec('scalar', [('val', 'native')], den=lambda D, a: D.num(a['val']))


def kind_cands(kind):
    if kind == 'scalar':
        return L.SCALARS
    if kind == 'ls':
        return frozenset(c for c in L.HSS if issubclass(c, L.HSA.LocalSpace))
    if kind == 'spinls':
        return frozenset(c for c in L.HSS if issubclass(c, L.SPA.SpinSpace))
    if kind == 'anyscalar':
        return L.SCALARS | frozenset(L.NATIVE)
    return SORT_CANDS[kind]


# ---------------------------------------------------------------------------

class Domain:
    def __init__(self, ctx):
        self.ctx = ctx
        self.I = None
        self.inline_extra = set()
        self.no_contract = set()       # (class/None, method) verified now: inline instead
        self._comm = {}
        self.pair_hook = None
        self.unc = {}
        self.refolds = {}
        self.hs_splits = []

    def attach(self, interp):
        self.I = interp

    # ------------------------------------------------------------ creation
    def fresh(self, name, cands, hset=None):
        """an arbitrary value of one of the classes `cands`"""
        ctx = self.ctx
        groups = {}
        for c in cands:
            s = sort_of_class(c)
            if s is None:
                raise Unsupported('class %s' % c)
            if s == 'native':
                s = 'scalar'
            groups.setdefault(s, []).append(c)
        if 'label' in groups and 'scalar' in groups and set(groups['scalar']) <= {int}:
            groups['label'] += groups.pop('scalar')
        keys = sorted(groups)
        s = keys[ctx.choose(len(keys), 'sort of ' + name)]
        return self.fresh_sort(name, s, groups[s], hset)

    def fresh_sort(self, name, s, cands=None, hset=None):
        cands = frozenset(cands if cands is not None else SORT_CANDS[s])
        if s == 'native':
            s = 'scalar'
        if s in ('op', 'ket', 'sop'):
            h = hset if hset is not None else z3.Const('H_' + name, ZS)
            unit = s == 'ket' and all(c.__name__ in ('KetSymbol', 'BasisKet', 'CoherentStateKet') for c in cands)
            den = nc.letter(name, s, support=h, meta=dict(unit=True) if unit else None)
            o = Obj(name, cands, s, den, h)
        elif s == 'bra':
            h = hset if hset is not None else z3.Const('H_' + name, ZS)
            den = nc.letter(name, 'ket', support=h).adj()
            o = Obj(name, cands, s, den, h)
        elif s == 'scalar':
            o = Obj(name, cands, s, nc.var(name), EMPTY)
        elif s == 'label':
            o = Obj(name, cands, s, nc.var('idx_' + name, integer=True), EMPTY)
        elif s == 'hs':
            if all(issubclass(c, L.HSA.LocalSpace) for c in cands):
                i = z3.Int('loc_' + name)
                h = z3.SetAdd(EMPTY, i)
                o = Obj(name, cands, s, None, h)
                o.loc = i
            else:
                h = z3.Const('H_' + name, ZS)
                o = Obj(name, cands, s, None, h)
        elif s == 'range':
            o = Obj(name, cands, s, None, EMPTY)
        else:
            o = Obj(name, cands, s, None, EMPTY)
        if len(cands) == 1:
            self._became_single(o)
        return o

    def narrow(self, o, cands):
        cands = o.cands & frozenset(cands)
        if not cands:
            raise Infeasible()
        if cands == o.cands:
            return
        self.ctx.set_attr(o, 'cands', cands)
        if o.sort == 'scalar' and cands <= {int, float, complex}:
            self.numeric(o)
        if len(cands) == 1:
            self._became_single(o)
        elif o.sort == 'hs' and all(issubclass(c, L.HSA.LocalSpace) for c in cands):
            self._local(o)

    def numeric(self, o):
        """a plain number contains no symbols"""
        self.ctx.assume(z3.Const('syn_' + o.name, ZS) == EMPTY)
        if o.den is not None:
            self.ctx.assume(self.dep_of(o.den) == EMPTY)

    def _local(self, o):
        i = z3.Int('loc_' + o.name)
        self.ctx.set_attr(o, 'loc', i)
        self.ctx.assume(o.hset == z3.SetAdd(EMPTY, i))

    def _became_single(self, o):
        c, = o.cands
        nm = c.__name__
        if o.sort == 'hs':
            if nm == 'TrivialSpace':
                self.ctx.assume(o.hset == EMPTY)
            elif nm == 'FullSpace':
                self.ctx.assume(o.hset == FULL)
            elif issubclass(c, L.HSA.LocalSpace):
                if not hasattr(o, 'loc'):
                    self._local(o)
            return
        if nm in SING_DEN:
            self.bind(o.den, SING_DEN[nm])
            if o.hset is not None and o.sort != 'scalar' and nm not in ('ZeroKet', 'ZeroOperator'):
                self.ctx.assume(o.hset == EMPTY)
            return
        if nm in SPEC and o.refined is None and not getattr(o, 'opaque', False):
            self.refine(o)

    def refine(self, o):
        c, = o.cands
        sp = SPEC[c.__name__]
        a = {}
        self.ctx.set_attr(o, 'refined', sp)
        for nm, kind in sp.pos:
            a[nm] = self.child(o, nm, kind)
        if sp.var:
            nm, kind = sp.var
            a[nm] = Seq([self.child_seg(o, nm, kind)], 'tuple')
            if kind != 'range':
                # class invariant (checked by __init__): at least two operands
                self.ctx.assume(a[nm].chunks[0].n >= 2)
        for nm, kind in sp.kw:
            a[nm] = self.child(o, nm, kind)
        self._install(o, sp, a, bind=True)

    def child(self, o, nm, kind):
        if kind == 'sign':
            v = nc.var('sign_' + o.name, integer=True)
            return Obj(o.name + '.sign', {int}, 'scalar', v, EMPTY)
        return self.fresh_sort(o.name + '.' + nm, 'hs' if kind in ('ls', 'spinls') else kind, kind_cands(kind))

    def child_seg(self, o, nm, kind):
        base = o.name + '.' + nm
        return self.make_seg(base, kind, kind_cands(kind))

    def make_seg(self, base, kind, cands, n=None):
        D = self
        cands = cands if cands is not None else kind_cands(kind)

        def gen(ctx, seg):
            return D.fresh_sort(base + '.e', kind, cands)
        s = Seg(base, gen, n=n)
        s.kind, s.cands = kind, cands
        return s

    def _install(self, o, sp, a, bind):
        ctx = self.ctx
        if sp.pre:
            for f in sp.pre(self, a):
                ctx.assume(f)
        den = sp.den(self, a)
        h = sp.hset(self, a) if sp.hset else None
        ctx.set_attr(o, 'attrs', dict(o.attrs, **a))
        if bind:
            if h is not None and o.hset is not None and o.sort != 'scalar':
                ctx.assume(o.hset == h)
            self.bind(o.den, den)
        else:
            ctx.set_attr(o, 'den', den)
            if h is not None:
                ctx.set_attr(o, 'hset', h)

    # ------------------------------------------------------------ denotations
    def bind(self, p, q):
        """record the equality p = q of denotations"""
        p, q = self.norm(p), self.norm(q)
        if p == q:
            return
        pairs = ((p, q), (q, p))
        if nc.integer_valued(p) and not nc.integer_valued(q):
            pairs = ((q, p), (p, q))
        for x, y in pairs:
            if len(x.t) == 1:
                ((m, w), c), = x.t.items()
                if c == nc.CQ(1):
                    key = None
                    if not m and len(w) == 1:
                        key = w[0]
                        l = nc.LETTERS[key]
                        if l.meta and l.meta.get('rebuild') and not l.meta.get('free'):
                            continue
                    elif len(m) == 1 and not w and m[0][1] == 1 and nc.ATOMS[m[0][0]].kind in ('var', 'fn', 'scal'):
                        key = m[0][0]
                    if key is not None:
                        base = key
                        if key in nc.LETTERS and nc.LETTERS[key].is_adj:
                            base = nc.LETTERS[key].adj_key
                            y = y.dual() if nc.LETTERS[key].sort == 'sop' else y.adj()
                        if not _occurs(base, y):
                            self.ctx.set_item(self.ctx.sub, base, y)
                            self._comm_reset()
                            return
        # solve linearly for a variable
        d = p - q
        for (m, w), c in sorted(d.t.items(), key=str, reverse=True):
            if not w and len(m) == 1 and m[0][1] == 1 and nc.ATOMS[m[0][0]].kind == 'var':
                rest = P({k: v for k, v in d.t.items() if k != (m, w)})
                if not _occurs(m[0][0], rest):
                    self.ctx.set_item(self.ctx.sub, m[0][0], rest * nc.P({((), ()): (-c).inv()}))
                    return
        for (m, w), c in sorted(d.t.items(), key=str, reverse=True):
            if not w and len(m) == 1 and m[0][1] == 1 and nc.ATOMS[m[0][0]].kind in ('fn', 'scal'):
                rest = P({k: v for k, v in d.t.items() if k != (m, w)})
                if not _occurs(m[0][0], rest):
                    self.ctx.set_item(self.ctx.sub, m[0][0], rest * nc.P({((), ()): (-c).inv()}))
                    return
        if d.is_const():
            raise Infeasible()
        return

    def _comm_reset(self):
        pass

    def subst(self, p):
        for _ in range(12):
            q = p.subst(self.ctx.sub) if self.ctx.sub else p
            if q == p:
                return p
            p = q
        raise Unsupported('cyclic definitions')

    def support(self, k):
        s = nc.LETTERS[k].support
        return s

    def commutes(self, a, b):
        if a == b:
            return True
        la, lb = nc.LETTERS[a], nc.LETTERS[b]
        if la.sort == 'sop' or lb.sort == 'sop':
            ka, kb = (la.meta or {}).get('side'), (lb.meta or {}).get('side')
            if ka and kb and ka != kb:
                return True
            if ka and kb:
                return self.commutes(la.meta['of'], lb.meta['of'])
        sa, sb = la.support, lb.support
        if sa is None or sb is None:
            return False
        return self.entails_cached(z3.SetIntersect(sa, sb) == EMPTY)

    def entails_cached(self, f):
        key = (f.sexpr(), len(self.ctx.solver.assertions()), len(self.ctx.trail))
        r = self._comm.get(key)
        if r is None:
            r = self._comm[key] = self.ctx.entails(f)
        return r

    def subset(self, a, b):
        return self.entails_cached(z3.IsSubset(a, b))

    def same_ls(self, p):
        """record which names of local spaces denote the same space"""
        names = {}
        for (m, w), c in p.t.items():
            for k in w:
                mt = nc.LETTERS[k].meta
                if mt and mt.get('ls') and mt['ls'] not in names:
                    names[mt['ls']] = mt['support']
                elif mt and mt.get('side'):
                    mt = nc.LETTERS[mt['of']].meta
                    if mt and mt.get('ls'):
                        names[mt['ls']] = mt['support']
        if len(names) < 2:
            return
        known = self.ctx.sub.get('@ls', {})
        ks = [k for k in sorted(names) if k not in known]
        for i, a in enumerate(ks):
            for b in ks[:i]:
                if b in known:
                    continue
                if self.entails_cached(names[a] == names[b]):
                    self.ctx.set_item(self.ctx.sub, '@ls', dict(self.ctx.sub.get('@ls', {}), **{a: (b, names[b])}))
                    self.ctx.set_item(self.ctx.sub, 'spin[%s]' % a, spin(b))
                    break

    def norm(self, p):
        p = self.subst(p)
        self.same_ls(p)
        if '@ls' in self.ctx.sub:
            p = self.subst(p)
        R = Reducer(self.commutes, self.pair_hook, self.subset, scal_hook=self.open_isums)
        p = R.reduce(p)
        p = delta_normal(p)
        for _ in range(3):
            q = self.subst(p)
            if q == p:
                break
            p = delta_normal(R.reduce(q))
        return self.repull(p)

    def retrace(self, p):
        """traces over a product space that has been decomposed"""
        def known(hs):
            return any(hs.name == h.name for h, _, _ in self.hs_splits)
        if not any(known(x.tr[1]) for (m, w) in p.t for x in [nc.ATOMS[k] for k, _ in m] if getattr(x, 'tr', None)) and \
                not any(known(nc.LETTERS[k].meta['tr'][1]) for (m, w) in p.t for k in w if (nc.LETTERS[k].meta or {}).get('tr')):
            return p
        out = ZERO
        for (m, w), c in p.t.items():
            q = P({((), ()): c})
            for k, e in m:
                tr = getattr(nc.ATOMS[k], 'tr', None)
                if tr and isinstance(e, int) and e > 0:
                    q = q * self.trace_den(word(tr[0]), tr[1]) ** e
                else:
                    q = q * P({(((k, e),), ()): nc.CQ(1)})
            for k in w:
                tr = (nc.LETTERS[k].meta or {}).get('tr')
                q = q * (self.trace_den(word(tr[0]), tr[1]) if tr else P({((), (k,)): nc.CQ(1)}))
            out = out + q
        return out

    def repull(self, p):
        """indexed sums again, under what is known by now"""
        if self.hs_splits:
            p = self.retrace(p)
        if not any(('isum' in (nc.LETTERS[k].meta or {})) for (m, w) in p.t for k in w) and \
                not any(getattr(nc.ATOMS[k], 'isum', None) for (m, w) in p.t for k, _ in m):
            return p
        out = ZERO
        for (m, w), c in p.t.items():
            q = P({((), ()): c})
            for k, e in m:
                at = nc.ATOMS[k]
                if getattr(at, 'isum', None) and isinstance(e, int) and e > 0:
                    q = q * self.isum(self.norm(at.isum[0]), *at.isum[1:]) ** e
                else:
                    q = q * P({(((k, e),), ()): nc.CQ(1)})
            for k in w:
                mt = nc.LETTERS[k].meta or {}
                if 'isum' in mt:
                    q = q * self.isum(self.norm(mt['isum'][0]), *mt['isum'][1:])
                else:
                    q = q * P({((), (k,)): nc.CQ(1)})
            out = out + q
        if out == p:
            return p
        return Reducer(self.commutes, self.pair_hook, self.subset, scal_hook=self.open_isums).reduce(out)

    def open_isums(self, w, wrap=None):
        """f(.. Σ t ..) = Σ f(.. t ..) for a linear f; None if there is no sum
        (or its index symbols occur elsewhere)"""
        comps, out = (), ONE
        for i, k in enumerate(w):
            s = (nc.LETTERS[k].meta or {}).get('isum')
            if s is not None and not ({n for n, _ in s[1]} & {n for n, _ in comps}):
                b = union(*[x for _, x in s[1]])
                others = [x for j, x in enumerate(w) if j != i] + ([wrap] if isinstance(wrap, str) else [])
                if all(self.entails_cached(z3.SetIntersect(self.dep(x), b) == EMPTY) for x in others):
                    comps += s[1]
                    out = out * s[0]
                    continue
            out = out * word((k,))
        if not comps:
            return None
        comps = tuple(sorted(comps, key=lambda x: x[0]))
        if wrap is not None:
            return self.isum(self.norm(self._app_letter(wrap, out)), comps)
        return self.isum(self.norm(out), comps)

    def prove_eq(self, name, p, q):
        """obligation: the two denotations are equal in every model"""
        import time
        t = time.time()
        a, b = self.norm(p), self.norm(q)
        ok, how = a == b, 'normal form'
        if not ok:
            d = self.norm(a - b)
            ok = d.is_zero()
            if not ok:
                # operator identity: compare the action on an arbitrary basis ket
                for ls, sup in self._local_spaces(d):
                    n = nc.var('n#' + ls, integer=True)
                    dk = self.norm(d * basis_ket(ls, sup, n))
                    if dk.is_zero():
                        ok, how = True, 'action on |n>'
                        break
                    d = d
        self.ctx.obligations.append(Obligation(
            name, ok, how, '' if ok else 'computed: %s\nrequired: %s' % (_short(a), _short(b)),
            time.time() - t, self.ctx.path_str(), 'proved' if ok else 'refuted'))
        return ok

    def prove(self, name, cond, detail=''):
        import time
        t = time.time()
        ok = cond if isinstance(cond, bool) else self.ctx.entails(cond)
        self.ctx.obligations.append(Obligation(
            name, ok, 'z3' if not isinstance(cond, bool) else 'path', '' if ok else detail or str(cond)[:400],
            time.time() - t, self.ctx.path_str(), 'proved' if ok else 'refuted'))
        return ok

    def _local_spaces(self, p):
        out = {}
        for (m, w), c in p.t.items():
            for k in w:
                mt = nc.LETTERS[k].meta
                if mt and mt.get('ls'):
                    out[mt['ls']] = mt['support']
        return sorted(out.items(), key=lambda x: x[0])

    def num(self, v):
        """scalar denotation of a number-like value"""
        if isinstance(v, Obj):
            if v.sort in ('scalar', 'label'):
                return v.den
            raise Unsupported('number expected: %r' % v)
        if isinstance(v, P):
            return v
        if isinstance(v, SInt):
            return self.int_den(v)
        return self.native_den(v)

    def int_den(self, v):
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            return P.const(t.as_long())
        if z3.is_const(t):
            return nc.var(str(t), integer=True)
        if z3.is_add(t):
            r = ZERO
            for c in t.children():
                r = r + self.int_den(SInt(c))
            return r
        if z3.is_mul(t):
            r = ONE
            for c in t.children():
                r = r * self.int_den(SInt(c))
            return r
        return nc.var('int<%s>' % t, integer=True)

    def native_den(self, v):
        if isinstance(v, bool):
            return P.const(int(v))
        if isinstance(v, (int, float, complex)):
            return lift(v)
        if isinstance(v, L.SA.Scalar):
            if type(v) in SINGLETON:
                return SING_DEN[type(v).__name__]
            if isinstance(v, L.SA.ScalarValue):
                return self.native_den(v.val)
        if isinstance(v, sympy.Basic):
            return sympy_den(v)
        raise Unsupported('no denotation for native %r' % (v,))

    def idx(self, v):
        """index of a basis label"""
        if isinstance(v, Obj):
            return v.den
        if isinstance(v, int):
            return P.const(v)
        if isinstance(v, SInt):
            return self.int_den(v)
        if isinstance(v, (sympy.Basic, L.SA.Scalar)):
            return self.native_den(v)
        raise Unsupported('index of %r' % (v,))

    def powden(self, b, e):
        return nc.power(self.norm(self.num(b)), self.norm(self.num(e)))

    def same_space(self, a, b):
        # ZeroKet lives in every space
        return [a.hset == b.hset]

    def lr_letter(self, side, k):
        l = nc.LETTERS[k]
        key = '%s:%s' % (side, k)
        if key not in nc.LETTERS and side == 'R':
            self.lr_letter('L', k)
        if key not in nc.LETTERS:
            ak = '%s:%s' % (side, l.adj_key)
            for kk, aa, kb in ((key, ak, k), (ak, key, l.adj_key)):
                of = kb
                D = self

                def rebuild(sub, lt, of=of):
                    r = nc._subst_letter(of, sub)
                    return _Lmap(D, r, side)
                nc.LETTERS[kk] = nc.Letter(kk, 'sop', nc.LETTERS[kb].support, aa, kk == aa,
                                           dict(side=side, of=kb, rebuild=rebuild,
                                                dual='%s:%s' % ('R' if side == 'L' else 'L', kb)))
            if side == 'L':
                self.lr_letter_other(k)
        return key

    def lr_letter_other(self, k):
        if 'R:%s' % k not in nc.LETTERS:
            self.lr_letter('R', k)

    def sapply(self, s, o):
        """apply superoperator element s to operator element o"""
        out = ZERO
        for (m, w), c in s.t.items():
            r = o
            for k in reversed(w):
                mt = nc.LETTERS[k].meta or {}
                if mt.get('side') == 'L':
                    r = word((mt['of'],)) * r
                elif mt.get('side') == 'R':
                    r = r * word((mt['of'],))
                else:
                    r = self._app_letter(k, r)
            out = out + P({(m, ()): c}) * r
        return out

    def _app_letter(self, k, r):
        out = ZERO
        D = self
        for (m, w), c in self.norm(r).t.items():
            key = '%s(%s)' % (k, '.'.join(w))
            op = self.open_isums(w, k)
            if op is not None:
                out = out + P({(m, ()): c}) * op
                continue
            if key not in nc.LETTERS:
                def rebuild(sub, l, w=w, k=k):
                    o = ONE
                    for x in w:
                        o = o * nc._subst_letter(x, sub)
                    s = nc._subst_letter(k, sub)
                    if o == word(w) and s == word((k,)):
                        return word((l.key,))
                    return D.sapply(s, o)
                nc.LETTERS[key] = nc.Letter(key, 'op', None, key + "'", False, dict(rebuild=rebuild, parts=[k] + list(w), app=(k, w)))
                nc.LETTERS[key + "'"] = nc.Letter(key + "'", 'op', None, key, False,
                                                 dict(app=(k, w), parts=[k] + list(w), rebuild=lambda sub, l, key=key: nc._subst_letter(key, sub).adj()
                                                      if nc._subst_letter(key, sub) != word((key,)) else word((key + "'",))),
                                                 is_adj=True)
            out = out + P({(m, ()): c}) * word((key,))
        return out

    # ---- dependence on index symbols
    def dep(self, k):
        """set of index symbols the value of a letter / atom may depend on"""
        if k in nc.LETTERS:
            l = nc.LETTERS[k]
            mt = l.meta or {}
            if 'kind' in mt:
                return union(*[self.dep_of(a) for a in mt['args']])
            if 'side' in mt:
                return self.dep(mt['of'])
            if 'parts' in mt:
                return z3.SetDifference(union(*[self.dep(x) for x in mt['parts']]), mt.get('bound', EMPTY))
            return z3.Const('free_' + (l.base if not l.is_adj or l.base != k else k.rstrip("'")), ZS)
        a = nc.ATOMS[k]
        if getattr(a, 'dep_key', None):
            return self.dep(a.dep_key)
        if a.kind == 'var':
            nm = k[:-1] if k.endswith('~') else k
            if nm.startswith(('spin[', 'dim[', 'len(')):
                return EMPTY
            return z3.Const('free_' + nm, ZS)
        if a.kind == 'scal':
            return union(*[self.dep(x) for x in a.args[0]])
        out = []
        for x in a.args:
            if isinstance(x, P):
                out.append(self.dep_of(x))
            elif isinstance(x, str) and x in nc.LETTERS:
                out.append(self.dep(x))
            elif isinstance(x, z3.ExprRef):
                pass
        r = union(*out)
        if getattr(a, 'bound', None) is not None:
            r = z3.SetDifference(r, a.bound)
        return r

    def dep_of(self, p):
        ks = {k for (m, w) in p.t for k in w} | {k for (m, w) in p.t for k, _ in m}
        return union(*[self.dep(k) for k in sorted(ks)])

    # ---- indexed sums: linear, factors that do not depend on the indices pull out
    def range_id(self, ranges):
        """the components (name, set of index symbols) of a run of ranges"""
        comps = []
        chunks = ranges.chunks if isinstance(ranges, Seq) else [Elem(r) for r in ranges]
        for c in chunks:
            if isinstance(c, Elem):
                comps.append((c.v.name, z3.SetAdd(EMPTY, z3.Int('sym_%s.idx' % c.v.name))))
            elif isinstance(c, Seg):
                comps.append((c.name + '*', z3.Const('bound_' + c.name, ZS)))
            else:
                raise Unsupported('computed ranges')
        return tuple(sorted(comps, key=lambda x: x[0]))

    def indexed_sum(self, term, ranges):
        comps = self.range_id(ranges)
        for _, b in comps:
            self.ctx.assume(z3.IsSubset(b, IDX))
        return self.isum(self.norm(self.den_of(term)), comps)

    def isum(self, p, comps):
        """sum over the index ranges `comps`.  The order of summation is
        irrelevant (finite or absolutely convergent sums)."""
        comps = tuple(comps)
        if not comps:
            return p
        out = ZERO
        for (m, w), c in p.t.items():
            out = out + P({((), ()): c}) * self._isum_mono(m, w, comps)
        return out

    def _isum_mono(self, m, w, comps):
        for i, comp in enumerate(comps):
            bound = comp[1]
            indep = lambda k: self.entails_cached(z3.SetIntersect(self.dep(k), bound) == EMPTY)
            m_out = tuple(x for x in m if indep(x[0]))
            m_in = tuple(x for x in m if x not in m_out)
            left, right, ww = [], [], list(w)
            while ww and indep(ww[0]):
                left.append(ww.pop(0))
            while ww and indep(ww[-1]):
                right.insert(0, ww.pop())
            changed = True
            while changed:
                changed = False
                for j, k in enumerate(ww):
                    if indep(k):
                        if all(self.commutes(k, x) for x in ww[:j]):
                            left.append(ww.pop(j))
                            changed = True
                            break
                        if all(self.commutes(k, x) for x in ww[j + 1:]):
                            right.insert(0, ww.pop(j))
                            changed = True
                            break
            if m_out or left or right or not (m_in or ww):
                core = self._isum_core(m_in, tuple(ww), (comp,))
                q = P({(m_out, ()): nc.CQ(1)}) * word(left) * core * word(right)
                return self.isum(q, comps[:i] + comps[i + 1:])
        return self._isum_core(m, tuple(w), comps)

    def _isum_core(self, m, w, comps):
        D = self
        inner = None
        if not m and len(w) == 1:
            inner = (nc.LETTERS[w[0]].meta or {}).get('isum')
        elif not w and len(m) == 1 and m[0][1] == 1:
            inner = getattr(nc.ATOMS[m[0][0]], 'isum', None)
        if inner is not None and not ({n for n, _ in inner[1]} & {n for n, _ in comps}):
            bi, bo = union(*[b for _, b in inner[1]]), union(*[b for _, b in comps])
            if self.entails_cached(z3.SetIntersect(bi, bo) == EMPTY):
                return self.isum(inner[0], tuple(sorted(inner[1] + comps, key=lambda x: x[0])))
        key = ','.join(n for n, _ in comps)
        bound = union(*[b for _, b in comps])
        body = P({(m, w): nc.CQ(1)})
        nm = 'isum[%s]{%s}' % (key, body.key())

        def rebuild(sub, *a):
            q = body.subst(sub)
            if q == body:
                return P({((), (nm,)): nc.CQ(1)}) if w else nc._atom_P(nc.ATOMS[nm])
            return D.isum(D.norm(q), comps)
        ab = body.adj()
        ((am, aw), ac), = ab.t.items()
        if ac != nc.CQ(1):
            raise Unsupported('adjoint inside an indexed sum')
        anm = 'isum[%s]{%s}' % (key, ab.key())
        if not w:
            if nm not in nc.ATOMS:
                for n1, n2, b in ((nm, anm, body), (anm, nm, ab)):
                    at = nc.Atom(n1, 'fn', ('isum', b), conj_key=n2)
                    at.real = n1 == n2
                    at.bound = bound
                    at.isum = (b, comps)
                    nc.ATOMS.setdefault(n1, at)
                nc.ATOMS[nm].rebuild = rebuild
                if anm != nm:
                    nc.ATOMS[anm].rebuild = lambda sub: rebuild(sub).conj() if rebuild(sub) != nc._atom_P(nc.ATOMS[nm]) \
                        else nc._atom_P(nc.ATOMS[anm])
            return nc._atom_P(nc.ATOMS[nm])
        if nm not in nc.LETTERS:
            sort = 'op'
            sorts = [nc.LETTERS[k].sort for k in w]
            if 'sop' in sorts:
                sort = 'sop'
            elif sorts.count('ket') > sorts.count('bra'):
                sort = 'ket'
            elif sorts.count('bra') > sorts.count('ket'):
                sort = 'bra'
            sup = None
            if all(nc.LETTERS[k].support is not None for k in w):
                sup = union(*[nc.LETTERS[k].support for k in w])
            parts = list(w) + [k for k, _ in m]
            asort = {'ket': 'bra', 'bra': 'ket'}.get(sort, sort)
            nc.LETTERS[nm] = nc.Letter(nm, sort, sup, anm, nm == anm, dict(rebuild=rebuild, parts=parts, bound=bound,
                                                                        isum=(body, comps)))
            if anm != nm:
                wordp = P({((), (nm,)): nc.CQ(1)})
                nc.LETTERS[anm] = nc.Letter(
                    anm, asort, sup, nm, False,
                    dict(rebuild=lambda sub, l: (rebuild(sub).adj() if rebuild(sub) != wordp else
                                                 P({((), (anm,)): nc.CQ(1)})), parts=parts, bound=bound,
                         isum=(ab, comps)))
        return P({((), (nm,)): nc.CQ(1)})

    # ---- linear functionals: traces, pseudo inverses, indexed sums
    def trace(self, op, hs):
        """partial trace of an element: linear, pulls out letters that do not
        act on the traced space; tr over the trivial space is the identity"""
        return self.trace_den(self.norm(op.den), hs)

    def trace_den(self, p, hs):
        if self.entails_cached(hs.hset == EMPTY):
            return p
        for whole, first, rest in self.hs_splits:
            # the trace over a tensor product is the iterated trace
            if hs.name == whole.name or self.entails_cached(hs.hset == whole.hset):
                return self.trace_den(self.trace_den(p, first), rest)
            if hs.name != rest.name and self.entails_cached(hs.hset == rest.hset):
                hs = rest
                break
        out = ZERO
        for (m, w), c in p.t.items():
            out = out + P({(m, ()): c}) * self._trace_word(w, hs)
        return out

    def _trace_word(self, w, hs):
        D = self

        def off(k):
            s = nc.LETTERS[k].support
            return s is not None and self.entails_cached(z3.SetIntersect(s, hs.hset) == EMPTY)
        left, w = list(), list(w)
        while w and off(w[0]):
            left.append(w.pop(0))
        right = []
        while w and off(w[-1]):
            right.insert(0, w.pop())
        # letters in the middle that commute out to either side
        changed = True
        while changed:
            changed = False
            for i, k in enumerate(w):
                if off(k):
                    if all(self.commutes(k, x) for x in w[:i]):
                        left.append(w.pop(i))
                        changed = True
                        break
                    if all(self.commutes(k, x) for x in w[i + 1:]):
                        right.insert(0, w.pop(i))
                        changed = True
                        break
        if not w:
            core = self.dim(hs)
        else:
            core = self._trace_core(tuple(w), hs)
        return word(left) * core * word(right)

    def _trace_core(self, w, hs):
        inside = all(nc.LETTERS[k].support is not None and self.subset(nc.LETTERS[k].support, hs.hset) for k in w)
        if inside:
            # a scalar: cyclic; complete inner products
            ls = getattr(hs, 'loc', None)
            if ls is not None and len(w) >= 1:
                for i in range(len(w)):
                    rot = w[i:] + w[:i]
                    if nc.LETTERS[rot[0]].sort == 'bra' and nc.LETTERS[rot[-1]].sort == 'ket' \
                            or (len(rot) > 1 and nc.LETTERS[rot[0]].sort == 'bra'):
                        r = self.norm(word(rot))
                        if r.is_scalar():
                            return r
            key0 = w
            rots = [w[i:] + w[:i] for i in range(len(w))]
            w = min(rots)
            if len(w) == 1:
                kd = (nc.LETTERS[w[0]].meta or {}).get('kind')
                if kd in ('Create', 'Destroy', 'Jplus', 'Jminus', 'Jz'):
                    return ZERO
        key = 'tr[%s](%s)' % (hs.name, '.'.join(w))
        if inside:
            args = tuple(w)
            a = nc.Atom(key, 'fn', ('tr', hs.name) + args)
            a.tr = (w, hs)
            # conj of a full trace: trace of the adjoint
            ww = tuple(nc.adj_letter(k) for k in reversed(w))
            rots = [ww[i:] + ww[:i] for i in range(len(ww))]
            ck = 'tr[%s](%s)' % (hs.name, '.'.join(min(rots)))
            a.conj_key = ck
            nc.ATOMS.setdefault(ck, nc.Atom(ck, 'fn', ('tr', hs.name) + min(rots), conj_key=key))
            self._tr_rebuild(key, w, hs)
            return nc._atom_P(a)
        if key not in nc.LETTERS:
            sup = None
            if all(nc.LETTERS[k].support is not None for k in w):
                sup = z3.SetDifference(union(*[nc.LETTERS[k].support for k in w]), hs.hset)
            ww = tuple(nc.adj_letter(k) for k in reversed(w))
            ak = 'tr[%s](%s)' % (hs.name, '.'.join(ww))
            D = self
            for kk, aa, v in ((key, ak, w), (ak, key, ww)):
                def rebuild(sub, l, v=v, kk=kk):
                    o = ONE
                    for x in v:
                        o = o * nc._subst_letter(x, sub)
                    if o == word(v):
                        return word((kk,))
                    return D.trace_den(D.norm(o), hs)
                nc.LETTERS.setdefault(kk, nc.Letter(kk, 'op', sup, aa, kk == aa, dict(rebuild=rebuild, parts=list(v), tr=(v, hs))))
        return word((key,))

    def _tr_rebuild(self, key, w, hs):
        pass

    def dim(self, hs):
        return nc.var('dim[%s]' % hs.name, integer=True)

    def _unary_letter(self, nm, o):
        p = self.norm(o.den)
        key = '%s(%s)' % (nm, p.key())
        if key not in nc.LETTERS:
            D = self

            def rebuild(sub, l):
                q = p.subst(sub)
                if q == p:
                    return word((key,))
                return D._unary_letter(nm, Obj('?', o.cands, 'op', q, o.hset))
            nc.LETTERS[key] = nc.Letter(key, 'op', o.hset, key + "'", False, dict(rebuild=rebuild))
            nc.LETTERS[key + "'"] = nc.Letter(
                key + "'", 'op', o.hset, key, False,
                dict(rebuild=lambda sub, l: nc._subst_letter(key, sub).adj()
                     if nc._subst_letter(key, sub) != word((key,)) else word((key + "'",))), is_adj=True)
        return word((key,))

    def pinv(self, o):
        return self._unary_letter('pinv', o)

    def pderiv(self, o, derivs, vals):
        """a formal partial derivative (parameters are real: it commutes
        with the adjoint)"""
        tag = 'D<%s|%s>' % (derivs.name, vals.name)
        return self._pderiv(self.norm(o.den), tag, o.sort, o.hset)

    def _pderiv(self, p, tag, sort, hset):
        if p.is_zero():
            return p
        q = p.dual() if sort == 'sop' else p.adj()
        flip = q.key() < p.key()
        if flip:
            p, q = q, p
            sort = {'ket': 'bra', 'bra': 'ket'}.get(sort, sort)
        nm = '%s[%s]' % (tag, p.key())
        D = self

        def again(sub):
            r = p.subst(sub)
            return None if r == p else D._pderiv(D.norm(r), tag, sort, hset)
        if sort == 'scalar':
            l = nc.var(nm, real=p == q)
            for key in (nm, nm + '~'):
                if key in nc.ATOMS:
                    def rb(sub, key=key):
                        r = again(sub)
                        if r is None:
                            return nc._atom_P(nc.ATOMS[key])
                        return r.conj() if key != nm else r
                    nc.ATOMS[key].rebuild = rb
        else:
            def rebuild(sub, lt):
                r = again(sub)
                if r is None:
                    return word((lt.key,))
                return r if lt.key == nm else r.dual() if sort == 'sop' else r.adj()
            l = nc.letter(nm, sort, support=hset, herm=p == q, meta=dict(
                rebuild=rebuild, parts=[k for (m, w) in p.t for k in list(w) + [x for x, _ in m]]))
        if flip:
            return l.dual() if sort == 'sop' else l.adj()
        return l

    def nullproj(self, o):
        return self._unary_letter('nullproj', o)

    # ------------------------------------------------------------ sequences
    def fold(self, seq, op):
        if isinstance(seq, (list, tuple)):
            seq = Seq([Elem(v) for v in seq], 'tuple')
        r = ZERO if op == 'sum' else ONE
        for c in seq.chunks:
            if isinstance(c, Elem):
                d = self.den_of(c.v)
            else:
                d = self.fold_seg(c, op)
            r = r + d if op == 'sum' else r * d
        return r

    def den_of(self, v):
        if isinstance(v, Obj):
            if v.den is None:
                raise Unsupported('no denotation: %r' % v)
            return v.den
        o = self.lift(v)
        if o is None or o.den is None:
            raise Unsupported('no denotation: %r' % (v,))
        return o.den

    def seg_count(self, seg):
        c = getattr(seg, 'count', None)
        return c if c is not None else nc.var('len(%s)' % seg.name, integer=True)

    def oppow(self, p, e):
        """p*p*...*p (e factors)"""
        p, e = self.norm(p), self.norm(e)
        if p.is_scalar():
            return nc.power(p, e)
        if p == ONE:
            return p
        if e.is_const():
            c = e.const_value()
            if not c.im and c.re.denominator == 1 and 0 <= c.re <= 8:
                return p ** int(c.re)
        D = self
        key = 'pow(%s|%s)' % (p.key(), e.key())
        if key not in nc.LETTERS:
            sorts = [nc.LETTERS[k].sort for (m, w) in p.t for k in w[:1]]
            sup = [nc.LETTERS[k].support for (m, w) in p.t for k in w]
            sup = union(*sup) if all(x is not None for x in sup) else None
            q = p.dual() if sorts[0] == 'sop' else p.adj()
            ak = 'pow(%s|%s)' % (q.key(), e.key())

            def mk(key, ak, p):
                def rebuild(sub, l):
                    a, b = p.subst(sub), e.subst(sub)
                    if a == p and b == e:
                        return word((key,))
                    return D.oppow(a, b)
                nc.LETTERS[key] = nc.Letter(key, sorts[0], sup, ak, key == ak, dict(rebuild=rebuild))
            mk(key, ak, p)
            if ak != key:
                mk(ak, key, q)
        return word((key,))

    def seg_letter(self, seg, op, sort, extra=''):
        if isinstance(seg, loops.RestSeg):
            if op != seg.fop:
                raise Unsupported('fold of the rest of a run')
            return seg.den
        nm = ('Σ' if op == 'sum' else 'Π') + seg.name + extra
        if sort == 'scalar':
            return nc.var(nm)
        h = self.seg_hset(seg)
        return nc.letter(nm, 'op' if sort in ('op',) else sort, support=h)

    def seg_hset(self, seg):
        if not hasattr(seg, 'hset_c'):
            seg.hset_c = z3.Const('H_' + seg.name, ZS)
        return seg.hset_c

    def fold_seg(self, c, op):
        if isinstance(c, (loops.ProdSeg, loops.StarSeg)):
            raise Unsupported('fold of tuples')
        if isinstance(c, Seg):
            if c.kind in ('scalar', 'native'):
                return self.seg_letter(c, op, 'scalar')
            p = self.seg_letter(c, op, c.kind)
            if op == 'prod' and c.rev:
                p = self.seg_letter(c, op, c.kind, '~rev')
            return p
        return self.fold_mseg(c, op)

    def elem_key(self, seg):
        return seg.name + '.e'

    def fold_mseg(self, c, op):
        base = c.base
        scal = base.kind in ('scalar', 'native', 'sym', 'range')
        if base.kind == 'tuple':
            e = ZERO
        else:
            e = nc.var(self.elem_key(base)) if scal else nc.letter(self.elem_key(base), base.kind)
        neutral = ZERO if op == 'sum' else ONE
        ctx = self.ctx
        bodies = []
        for r in c.results:
            kind = r.kind
            if kind == 'drop':
                bodies.append((r, neutral))
            else:
                bodies.append((r, ctx.with_path(c.run, r, lambda v: self.norm(self.den_of(v[1] if isinstance(v, tuple) and v and v[0] in ('keep', 'drop') else v)))))
        cands = []
        for _, b in bodies:
            if b not in cands:
                cands.append(b)
        eadj = e.dual() if base.kind == 'sop' else e.adj() if base.kind != 'tuple' else e
        for b in (e, eadj, neutral):
            if b not in cands:
                cands.append(b)
        chosen = None
        for b in cands:
            if all(bb == b or ctx.with_path(c.run, r, lambda v, b=b, bb=bb: self.norm(b - bb).is_zero())
                   for r, bb in bodies):
                chosen = b
                break
        if chosen is None:
            # per-element case split: keep an opaque fold keyed by the cases
            if all(r.kind == 'drop' or True for r in c.results):
                raise Unsupported('element-wise image has no single closed form: %s' % '; '.join(_short(b) for _, b in bodies))
        if isinstance(base, (loops.ProdSeg, loops.StarSeg)):
            return self.fold_tuples(base, chosen, op)
        return self.fold_body(base, chosen, op, c.rev, scal)

    def fold_tuples(self, base, body, op):
        """sum of a multi-additive body over a cartesian product of runs"""
        if op != 'sum':
            raise Unsupported('product over a cartesian product')
        if isinstance(base, loops.StarSeg):
            # sum over product(*runs) of prod(combo) = prod over runs of (sum of the run)
            k = self.seg_letter(base.combo, 'prod', 'scalar' if base.combo.kind in ('scalar', 'native') else base.combo.kind)
            parts = [(k, self.star_total(base))]
            body = self.refold(body)
        else:
            parts = []
            for c in base.parts:
                sc = c.kind in ('scalar', 'native')
                ek = self.elem_key(c)
                parts.append((nc.var(ek) if sc else nc.letter(ek, c.kind),
                              self.seg_letter(c, 'sum', 'scalar' if sc else c.kind)))
        for k, tot in parts:
            ((m, w), _), = k.t.items()
            key = w[0] if w else m[0][0]
            sort = nc.LETTERS[key].sort if w else 'scalar'
            mk = (lambda nm: nc.var(nm)) if not w else (lambda nm: nc.letter(nm, sort, support=nc.LETTERS[key].support))
            e1, e2 = mk(key + '1'), mk(key + '2')
            zero = self.norm(body.subst({key: ZERO}))
            add = self.norm(body.subst({key: e1 + e2}) - body.subst({key: e1}) - body.subst({key: e2}))
            if not zero.is_zero() or not add.is_zero():
                raise Unsupported('not additive over a cartesian product: %s' % _short(body))
            body = self.norm(body.subst({key: tot}))
        return body

    @staticmethod
    def _one_key(p):
        if len(p.t) != 1:
            return None
        (m, w), = p.t
        if len(w) == 1 and not m:
            return w[0]
        if not w and len(m) == 1 and m[0][1] == 1:
            return m[0][0]

    def refold(self, body):
        """first * prod(rest) -> prod(run) for the runs elements were taken from"""
        out = {}
        for (m, w), c in body.t.items():
            w = list(w)
            m = dict(m)
            for (first, rest), whole in self.refolds.items():
                if first in m and rest in m:
                    for k in (first, rest):
                        m[k] -= 1
                        if not m[k]:
                            del m[k]
                    m[whole] = m.get(whole, 0) + 1
                i = 0
                while i + 1 < len(w):
                    if w[i] == first and w[i + 1] == rest:
                        w[i:i + 2] = [whole]
                    i += 1
            k = (tuple(sorted(m.items())), tuple(w))
            out[k] = out.get(k, nc.CQ(0)) + c
        return P({k: c for k, c in out.items()})

    def star_total(self, base):
        D = self

        def total(v):
            q = D.I.to_seq(v)
            d = D.fold(q, 'sum')
            return ('keep', D.result(base.combo.kind if base.combo.kind != 'native' else 'scalar', d))
        m = D.I.map_seg(base.outer, total)
        return D.fold(Seq([m], 'list'), 'prod')

    # ---- taking elements from a run
    def seg_empty(self, I, seg):
        if isinstance(seg, loops.RestSeg):
            self.bind(seg.den, ZERO if seg.fop == 'sum' else ONE)
            return
        if seg.kind in ('op', 'ket', 'sop', 'scalar', 'native'):
            k = 'scalar' if seg.kind == 'native' else seg.kind
            self.bind(self.seg_letter(seg, 'sum', k), ZERO)
            self.bind(self.seg_letter(seg, 'prod', k), ONE)
            self.ctx.assume(self.seg_hset(seg) == EMPTY)

    def seg_uncons(self, I, seg, end):
        if seg.kind == 'hs' and getattr(seg, 'whole', None) is not None:
            whole = seg.whole
            if seg.rev:
                raise Unsupported('reversed local factors')
            for w_, v, rest in self.hs_splits:
                if w_.name == whole.name:
                    if rest.end != end:
                        raise Unsupported('both ends of the local factors')
                    r = Seg(rest.name, seg.gen)
                    r.kind, r.cands, r.hset_c = 'hs', seg.cands, rest.hset
                    return v, [r]
            v = seg.gen(self.ctx, seg)
            rest = Obj(self.ctx.fresh('rest(%s)' % whole.name), L.HSS, 'hs', None, z3.SetDifference(whole.hset, v.hset))
            rest.end = end
            self.ctx.set_attr(self, 'hs_splits', self.hs_splits + [(whole, v, rest)])
            r = Seg(rest.name, seg.gen)
            r.kind, r.cands, r.hset_c = 'hs', seg.cands, rest.hset
            return v, [r]
        if isinstance(seg, (loops.ProdSeg, loops.StarSeg)) or not seg.kind in ('op', 'ket', 'sop', 'scalar', 'native', 'range'):
            raise Unsupported('element of a run of %s' % seg.kind)
        if isinstance(seg, loops.RestSeg):
            v = self.fresh_sort(self.ctx.fresh('next<%s>' % seg.name), seg.kind)
            r = loops.RestSeg(self.ctx.fresh(seg.name), seg.gen, seg.den - v.den, seg.kind, 'sum')
            if seg.fop != 'sum':
                raise Unsupported('rest of a product')
            return v, [r]
        front = (end == 0) != bool(seg.rev)
        known = self.unc.get(seg.name)
        if known is not None:
            f, v, rest = known
            if f == front:
                rest = copy.copy(rest)
                rest.rev = seg.rev
                return v, [rest]
            r = I.seg_split(rest, -1 if not front else 0)
            if r is None:
                return v, []
            v2, more = r
            return v2, ([Elem(v)] + more if f and not seg.rev or not f and seg.rev else more + [Elem(v)])
        nm = self.ctx.fresh(seg.name)
        cands = getattr(seg, 'cands', None) or kind_cands(seg.kind)
        v = self.fresh_sort(nm + '.' + ('first' if front else 'last'), seg.kind, cands)
        rest = self.make_seg(nm + '.rest', seg.kind, cands, n=seg.n - 1)
        self.ctx.set_item(self.unc, seg.name, (front, v, rest))
        k = 'scalar' if seg.kind == 'native' else seg.kind
        if k != 'range':
            s0, p0 = self.seg_letter(seg, 'sum', k), self.seg_letter(seg, 'prod', k)
            s1, p1 = self.seg_letter(rest, 'sum', k), self.seg_letter(rest, 'prod', k)
            if k != 'scalar':
                self.ctx.assume(self.seg_hset(seg) == z3.SetUnion(v.hset, self.seg_hset(rest)))
            self.bind(s0, v.den + s1)
            if front:
                ks = [self._one_key(x) for x in (v.den, p1, p0)]
                if None not in ks:
                    self.refolds[tuple(ks[:2])] = ks[2]
            self.bind(p0, v.den * p1 if front else p1 * v.den)
        else:
            self.ctx.assume(z3.Const('bound_' + seg.name, ZS) ==
                            z3.SetAdd(z3.Const('bound_' + rest.name, ZS), z3.Int('sym_%s.idx' % v.name)))
            raise Unsupported('a range out of a run of ranges')
        rest = copy.copy(rest)
        rest.rev = seg.rev
        return v, [rest]

    def mseg_split(self, I, c, end):
        """(element, rest) of a computed run; only sums of the rest are known"""
        known = getattr(c, 'split', None)
        if known is not None and known[0] == end:
            return known[1], [known[2]]
        n = c.n
        if n is None or isinstance(c.base, loops.StarSeg) and False:
            raise Unsupported('indexing into a filtered run')
        self.ctx.assume(n >= 0)
        if not self.ctx.branch(n > 0, 'nonempty(%s)' % c.base.name):
            tot = self.fold(Seq([c], 'list'), 'sum')
            self.bind(tot, ZERO)
            return None
        tot = self.fold(Seq([c], 'list'), 'sum')
        s = self._chunk_sort(c)
        if s not in ('op', 'ket', 'bra', 'sop', 'scalar'):
            raise Unsupported('element of a run of %s' % s)
        v = self.fresh_sort(self.ctx.fresh('first<%s>' % c.base.name), s)
        nm = self.ctx.fresh('rest')
        D = self

        def gen(ctx, seg):
            return D.fresh_sort(nm + '.e', s)
        r = loops.RestSeg(nm, gen, tot - v.den, s, 'sum')
        self.ctx.set_attr(c, 'split', (end, v, r))
        return v, [r]

    def mseg_len(self, I, c):
        n = z3.Int(self.ctx.fresh('len'))
        self.ctx.assume(n >= 0)
        if getattr(c.base, 'sset', None) is not None:
            self.ctx.assume((n == 0) == (self.seg_syms(c) == EMPTY))
        return n

    def mseg_is_empty(self, I, c):
        n = c.n
        if n is None:
            raise Unsupported('emptiness of a filtered run')
        self.ctx.assume(n >= 0)
        return not self.ctx.branch(n > 0, 'nonempty(%s)' % c.base.name)

    def sym_range(self, I, args):
        if len(args) > 1 and not (len(args) == 2 and args[0] == 0):
            raise Unsupported('range with a start')
        x = args[-1]
        if isinstance(x, Obj):
            if x.cands & L.SCALARS:
                if self.split(x, lambda c: c in L.SCALARS):
                    raise PyRaise(TypeError, 'cannot be interpreted as an integer')
            d = self.norm(x.den)
        else:
            d = self.int_den(x)
        if not nc.integer_valued(d):
            raise Unsupported('range(%s)' % d)
        t = self.z3int(d)
        n = z3.Int('len_range(%s)' % d.key())
        self.ctx.assume(n >= 0)
        if t is not None:
            self.ctx.assume(z3.If(t > 0, n == t, n == 0))
        s = Seg('range(%s)' % d.key(), None, n=n)
        s.kind, s.cands = 'native', frozenset([int])
        s.count = d
        D = self
        nm = s.name + '.e'
        s.gen = lambda ctx, seg: Obj(nm, {int}, 'scalar', nc.var(nm, integer=True), EMPTY)
        if t is not None and not self.ctx.branch(t > 0, 'range not empty'):
            return []
        return Seq([s], 'list')

    def product_seqs(self, I, seqs):
        return loops.product_seqs(self, I, seqs)

    def product_star(self, I, seq):
        return loops.product_star(self, I, seq)

    def fold_body(self, base, body, op, rev, scal):
        ek = self.elem_key(base)
        neutral = ZERO if op == 'sum' else ONE
        if body == neutral:
            return neutral
        seg = copy.copy(base)
        seg.rev = False
        seg.hset_c = self.seg_hset(base)
        if op == 'sum':
            # an additive image commutes with the sum
            mk = (lambda nm: nc.var(nm)) if scal else (lambda nm: nc.letter(nm, base.kind, support=seg.hset_c))
            tot = self.seg_letter(seg, 'sum', 'scalar' if scal else base.kind)
            zero = self.norm(body.subst({ek: ZERO}))
            rest = self.norm(body - zero)
            e1, e2 = mk(ek + '1'), mk(ek + '2')
            add = self.norm(rest.subst({ek: e1 + e2}) - rest.subst({ek: e1}) - rest.subst({ek: e2}))
            if add.is_zero():
                out = self.norm(rest.subst({ek: tot}))
            else:
                out = self.opaque_fold(base, rest, op, rev)
            if not zero.is_zero():
                out = out + zero * self.seg_count(base)
            return out
        # product
        if scal:
            e = nc.var(ek)
            if body == e:
                return self.seg_letter(seg, 'prod', 'scalar')
            if body == e.adj():
                return self.seg_letter(seg, 'prod', 'scalar').adj()
            if not _occurs(ek, body):
                return self.oppow(body, self.seg_count(base))
        else:
            e = nc.letter(ek, base.kind)
            s = self.seg_letter(seg, 'prod', base.kind)
            if body == e and not rev:
                return s
            if rev and body == (e.dual() if base.kind == 'sop' else e.adj()):
                return s.dual() if base.kind == 'sop' else s.adj()
            if not rev and base.kind == 'ket' and body == e.adj():
                return s.adj()      # tensor product: factors act on different spaces
            if not _occurs(ek, body):
                return self.oppow(body, self.seg_count(base))
        return self.opaque_fold(base, body, op, rev)

    def opaque_fold(self, base, body, op, rev):
        key = '%s{%s%s|%s}' % ('Σ' if op == 'sum' else 'Π', base.name, '~rev' if rev and op == 'prod' else '', body.key())
        if body.is_scalar():
            return nc.var(key)
        sort = base.kind if base.kind in ('op', 'ket', 'sop') else 'op'
        for (m, w) in body.t:
            if w:
                sort = nc.LETTERS[w[0]].sort
        return nc.letter(key, sort, support=None)

    def seq_hset(self, seq):
        if isinstance(seq, (list, tuple)):
            seq = Seq([Elem(v) for v in seq], 'tuple')
        hs = []
        for c in seq.chunks:
            if isinstance(c, Elem):
                o = self.lift(c.v)
                hs.append(o.hset if o is not None and o.hset is not None else EMPTY)
            elif isinstance(c, Seg):
                hs.append(self.seg_hset(c))
            else:
                hs.append(self.seg_hset(c.base))
        return union(*hs)

    # ------------------------------------------------------------ lifting
    def lift(self, v):
        """Obj for a concrete value"""
        if isinstance(v, Obj):
            return v
        t = type(v)
        if t in SINGLETON:
            nm = t.__name__
            s = sort_of_class(t)
            if s == 'hs':
                return Obj(nm, {t}, 'hs', None, EMPTY if nm == 'TrivialSpace' else FULL)
            h = EMPTY
            return Obj(nm, {t}, s, SING_DEN[nm], h)
        if isinstance(v, SInt):
            return Obj(str(v.t), {int}, 'scalar', self.int_den(v), EMPTY)
        if isinstance(v, SBool):
            return Obj('bool', {int}, 'scalar', nc.var('bool<%s>' % v.t, integer=True), EMPTY)
        if isinstance(v, bool):
            return Obj(str(v), {int}, 'scalar', P.const(int(v)), EMPTY)
        if isinstance(v, NUMERIC):
            return Obj(str(v), {t}, 'scalar', self.native_den(v), EMPTY)
        if isinstance(v, sympy.Basic):
            return Obj(str(v), {sympy.Basic}, 'scalar', self.native_den(v), EMPTY)
        if isinstance(v, L.SA.ScalarValue):
            return Obj(str(v.val), {L.SA.ScalarValue}, 'scalar', self.native_den(v), EMPTY)
        if t.__name__ in SPEC and isinstance(v, L.AA.Expression):
            sp = SPEC[t.__name__]
            try:
                a = self.bind_spec(t.__name__, sp, v.args, v.kwargs)
            except PyRaise:
                return None
            o = Obj(t.__name__, {t}, sp.sort, sp.den(self, a), sp.hset(self, a) if sp.hset else EMPTY, a)
            o.refined = sp
            return o
        return None

    def result(self, sort, den, hset=None, cands=None, name=None):
        """a value known only through a contract"""
        nm = name or self.ctx.fresh('r')
        o = Obj(nm, cands if cands is not None else SORT_CANDS[sort], 'scalar' if sort == 'native' else sort, den,
                hset if hset is not None else (EMPTY if sort in ('scalar', 'native') else None))
        if o.hset is None:
            o.hset = z3.Const('H_' + self.ctx.fresh('h'), ZS)
        o.opaque = True
        return o

    def sub_hset(self, *hs):
        """support of a simplified result: contained in the union"""
        h = z3.Const('H_' + self.ctx.fresh('h'), ZS)
        self.ctx.assume(z3.IsSubset(h, union(*[x for x in hs if x is not None])))
        return h

    # ------------------------------------------------------------ operators
    def unary(self, I, name, v):
        o = self.lift(v)
        if o.sort in ('scalar', 'label'):
            return self.scalar_result(-o.den, o)
        return self.result(o.sort, -o.den, o.hset)

    def scalar_result(self, den, *ops):
        native = all(isinstance(o, Obj) and o.cands <= frozenset(L.NATIVE) | L.LABELS for o in ops)
        if native:
            if all(o.cands == frozenset([int]) for o in ops):
                return self.result('native', den, EMPTY, frozenset([int]))
            return self.result('native', den, EMPTY, frozenset(L.NATIVE))
        if any(not (o.cands & L.SCALARS) for o in ops) or all(o.cands <= L.SCALARS for o in ops) or True:
            cands = L.SCALARS
            if all(o.cands & frozenset(L.NATIVE) for o in ops):
                cands = cands | frozenset(L.NATIVE)
            return self.result('scalar', den, EMPTY, cands)

    def is_label_str(self, o):
        return o.sort == 'label' and str in o.cands

    def binop(self, I, name, a, b):
        x, y = self.lift(a), self.lift(b)
        if isinstance(a, SSet) or isinstance(b, SSet):
            return self.sset_binop(name, a, b)
        if x is None or y is None:
            r = self.binop_other(I, name, a, b)
            return r
        for o in (x, y):
            if o.sort == 'label' and str in o.cands:
                other = y if o is x else x
                if self.split(o, lambda c: c is str):
                    if name == '*' and other.cands == {int}:
                        raise Unsupported('string repetition')
                    raise PyRaise(TypeError, 'arithmetic on a string label')
        s, t = x.sort, y.sort
        s = 'scalar' if s == 'label' else s
        t = 'scalar' if t == 'label' else t
        if s == 'hs' or t == 'hs':
            return self.hs_binop(name, x, y)
        if s == 'scalar' and t == 'scalar':
            if name == '+':
                d = x.den + y.den
            elif name == '-':
                d = x.den - y.den
            elif name == '*':
                d = x.den * y.den
            elif name == '/':
                q = self.norm(y.den)
                if q.is_zero():
                    raise PyRaise(ZeroDivisionError, 'division by zero')
                d = x.den * nc.inverse(q)
            elif name == '**':
                d = self.powden(x, y)
            else:
                if name in ('//', '%'):
                    p, q = self.norm(x.den), self.norm(y.den)
                    if p.is_const() and q.is_const() and not p.const_value().im and not q.const_value().im:
                        if q.is_zero():
                            raise PyRaise(ZeroDivisionError, 'division by zero')
                        u, v = p.const_value().re, q.const_value().re
                        return self.lift(int(u // v) if name == '//' else P.const(u % v)) if name == '//' else \
                            self.result('scalar', P.const(u % v), EMPTY)
                return NotImplemented if name not in ('//', '%') else self.result('scalar', nc.fn(name, x.den, y.den), EMPTY)
            return self.scalar_result(d, x, y)
        if name in ('+', '-'):
            if s != t:
                if s == 'scalar' and t in ('op', 'sop') or t == 'scalar' and s in ('op', 'sop'):
                    s = t if s == 'scalar' else s
                else:
                    raise Unsupported('%s %s %s' % (s, name, t))
            d = x.den + y.den if name == '+' else x.den - y.den
            return self.result(s, d, self.sub_hset(x.hset, y.hset))
        if name == '*':
            d = x.den * y.den
            h = lambda: self.sub_hset(x.hset, y.hset)
            if s == 'scalar':
                return self.result(t, d, y.hset)
            if t == 'scalar':
                return self.result(s, d, x.hset)
            if (s, t) in (('op', 'op'), ('sop', 'sop')):
                return self.result(s, d, h())
            if (s, t) == ('op', 'ket'):
                # requires op.space <= ket.space (SpaceTooLargeError otherwise)
                self.ctx.assume(z3.IsSubset(x.hset, y.hset))
                return self.result('ket', d, y.hset)
            if (s, t) == ('bra', 'op'):
                self.ctx.assume(z3.IsSubset(y.hset, x.hset))
                return self.result('bra', d, x.hset)
            if (s, t) in (('ket', 'ket'), ('bra', 'bra')):
                # requires disjoint spaces (OverlappingSpaces otherwise)
                self.ctx.assume(z3.SetIntersect(x.hset, y.hset) == EMPTY)
                return self.result(s, d, h())
            if (s, t) == ('bra', 'ket'):
                self.ctx.assume(x.hset == y.hset)
                return self.result('scalar', self.norm(d), EMPTY)
            if (s, t) == ('ket', 'bra'):
                self.ctx.assume(x.hset == y.hset)
                return self.result('op', d, h())
            if (s, t) == ('sop', 'op'):
                return self.result('op', self.sapply(self.norm(x.den), self.norm(y.den)), h())
            raise Unsupported('%s * %s' % (s, t))
        if name == '/' and t == 'scalar':
            return self.result(s, x.den * nc.inverse(self.norm(y.den)), x.hset)
        if name == '**' and s in ('op', 'sop'):
            e = self.norm(y.den)
            if e.is_const():
                c = e.const_value()
                if not c.im and c.re.denominator == 1 and 0 <= c.re <= 6:
                    return self.result(s, x.den ** int(c.re), x.hset)
            return self.result(s, self.oppow(x.den, e), x.hset)
        if name in ('/', '**'):
            raise PyRaise(TypeError, 'unsupported operand types for %s' % name)
        return NotImplemented

    def binop_other(self, I, name, a, b):
        raise Unsupported('operator %s on %r, %r' % (name, a, b))

    def native_binop(self, I, name, a, b):
        return NotImplemented

    def hs_binop(self, name, x, y):
        if x.sort != 'hs' or y.sort != 'hs':
            raise Unsupported('space %s non-space' % name)
        if name == '*':
            h = z3.SetUnion(x.hset, y.hset)
        elif name == '&':
            h = z3.SetIntersect(x.hset, y.hset)
        elif name in ('/', '-'):
            h = z3.SetDifference(x.hset, y.hset)
        else:
            return NotImplemented
        return Obj(self.ctx.fresh('hs'), L.HSS, 'hs', None, h)

    def sset(self, v):
        if isinstance(v, SSet):
            return v.t
        if isinstance(v, (set, frozenset)) and not v:
            return z3.EmptySet(z3.IntSort())
        raise Unsupported('set of %r' % (v,))

    def sset_binop(self, name, a, b):
        x, y = self.sset(a), self.sset(b)
        if name == '|':
            return SSet(z3.SetUnion(x, y))
        if name == '&':
            return SSet(z3.SetIntersect(x, y))
        if name == '-':
            return SSet(z3.SetDifference(x, y))
        return NotImplemented

    # ------------------------------------------------------------ comparisons
    def split(self, o, pred):
        """path fork on the class of o"""
        yes = frozenset(c for c in o.cands if pred(c))
        no = o.cands - yes
        if not no:
            return True
        if not yes:
            return False
        if self.ctx.choose(2, 'class of %s' % o.name) == 0:
            self.narrow(o, yes)
            return True
        self.narrow(o, no)
        return False

    def isinstance(self, I, o, c):
        if isinstance(c, ClassOf):
            c = self.class_of(c.obj)
        if isinstance(o, ClassOf):
            return c is type
        if isinstance(o, SSet):
            return c in (set, object)
        if not isinstance(o, Obj):
            raise Unsupported('isinstance of %r' % o)
        if not isinstance(c, type):
            raise Unsupported('isinstance with %r' % (c,))
        r = self.split(o, lambda k: issubclass(k, c) or (c is sympy.Basic and k is sympy.Basic))
        if not r and sympy.Basic in o.cands and issubclass(c, sympy.Basic) and c is not sympy.Basic:
            known = getattr(o, 'sub', None)
            if known is not None:
                return issubclass(known, c)
            r = bool(self.ctx.choose(2, '%s is %s' % (o.name, c.__name__)))
            if r:
                self.narrow(o, frozenset([sympy.Basic]))
                self.ctx.set_attr(o, 'sub', c)
            return r
        return r

    def class_of(self, o):
        """fork until the class is known"""
        cs = sorted(o.cands, key=lambda c: c.__name__)
        if len(cs) > 1:
            c = cs[self.ctx.choose(len(cs), 'class of ' + o.name)]
            self.narrow(o, {c})
            return c
        return cs[0]

    def type_of(self, I, o):
        if isinstance(o, Obj):
            return ClassOf(o)
        raise Unsupported('type of %r' % o)

    def equal(self, I, a, b):
        if isinstance(a, SSet) or isinstance(b, SSet):
            return SBool(self.sset(a) == self.sset(b))
        if isinstance(a, ClassOf) or isinstance(b, ClassOf):
            return self.is_(I, a, b)
        x, y = self.lift(a), self.lift(b)
        if x is None or y is None:
            if a is None or b is None:
                return False
            if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
                o = x if x is not None else y
                if o is None or str not in o.cands:
                    return False
                return bool(self.ctx.choose(2, 'label equals string'))
            if isinstance(a, (tuple, list, dict, set, Seq)) or isinstance(b, (tuple, list, dict, set, Seq)):
                return False
            raise Unsupported('== of %r and %r' % (a, b))
        if x is y:
            return True
        return self.obj_equal(x, y)

    def obj_equal(self, x, y):
        ctx = self.ctx
        s, t = x.sort, y.sort
        if s == 'hs' and t == 'hs':
            if not self.ctx.branch(x.hset == y.hset, '%s == %s' % (x.name, y.name)):
                return False
            return True
        num = ('scalar', 'label')
        if s != t and not (s in num and t in num):
            if {s, t} & set(num) and 'op' in (s, t):
                o = x if s == 'op' else y
                sc = y if s == 'op' else x
                k = [c for c in o.cands if c.__name__ == 'ScalarTimesOperator']
                if k and ctx.choose(2, '%s equals scalar' % o.name) == 0:
                    self.narrow(o, k)
                    if o.refined is None:
                        self.refine(o)
                    # ScalarTimesOperator == number: a multiple of the identity
                    self.narrow(o.attrs['term'], {type(L.OA.IdentityOperator)})
                    self.bind(self.num(o.attrs['coeff']), sc.den)
                    return True
            return False
        if s == 'range' or x.den is None or y.den is None:
            if ctx.choose(2, '%s == %s' % (x.name, y.name)) == 0:
                return True
            return False
        d = self.norm(x.den - y.den)
        if s in num:
            if d.is_zero() and x.cands <= frozenset(L.NATIVE) | L.SCALARS and \
                    (x.cands == y.cands and len(x.cands) == 1 and x.cands <= frozenset(NUMERIC)):
                return True
            if d.is_const() and not d.is_zero():
                return False
            nd = {id(x): self.norm(x.den), id(y): self.norm(y.den)}
            if nd[id(x)].is_const() or nd[id(y)].is_const():
                for (k, o) in ((y, x), (x, y)):
                    if nd[id(k)].is_const() and nd[id(k)].key() in o.neq:
                        return False
                if d.is_zero():
                    # equal value: numbers compare by value
                    return True
        else:
            # structural equality: same class, same arguments
            common = x.cands & y.cands
            if not common:
                return False
        if ctx.choose(2, '%s == %s' % (x.name, y.name)) == 0:
            if s not in num:
                self.narrow(x, common)
                self.narrow(y, common)
                if x.hset is not None and y.hset is not None:
                    ctx.assume(x.hset == y.hset)
            self.bind(x.den, y.den)
            return True
        for (k, o) in ((y, x), (x, y)):
            if s in num and nd[id(k)].is_const():
                ctx.set_attr(o, 'neq', o.neq + (nd[id(k)].key(),))
            elif len(k.cands) == 1 and next(iter(k.cands)) in SINGLETON and o.sort not in num:
                self.narrow(o, o.cands - k.cands)
        return False

    def is_(self, I, a, b):
        if isinstance(a, ClassOf) or isinstance(b, ClassOf):
            if isinstance(a, ClassOf) and isinstance(b, ClassOf):
                ca, cb = self.class_of(a.obj), self.class_of(b.obj)
                return ca is cb
            p, c = (a, b) if isinstance(a, ClassOf) else (b, a)
            if not isinstance(c, type):
                return False
            return self.split(p.obj, lambda k: k is c)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return False if not (a.cands & b.cands) else self.obj_equal(a, b)
        o, c = (a, b) if isinstance(a, Obj) else (b, a)
        if not isinstance(o, Obj):
            raise Unsupported('is: %r %r' % (a, b))
        t = type(c)
        if t in SINGLETON:
            if o.sort == 'hs':
                h = EMPTY if t.__name__ == 'TrivialSpace' else FULL
                return SBool(o.hset == h)
            if o.sort != sort_of_class(t):
                return False
            if t not in o.cands:
                return False
            return self.split(o, lambda k: k is t)
        if isinstance(c, (bool, int, str)) or c is None:
            return False
        raise Unsupported('is: %r %r' % (a, b))

    def is_none(self, I, o):
        return False

    def compare(self, I, name, a, b):
        x, y = self.lift(a), self.lift(b)
        if isinstance(a, SSet) or isinstance(b, SSet):
            p, q = self.sset(a), self.sset(b)
            if name == '<=':
                return SBool(z3.IsSubset(p, q))
            if name == '<':
                return SBool(z3.And(z3.IsSubset(p, q), p != q))
            if name == '>=':
                return SBool(z3.IsSubset(q, p))
            return SBool(z3.And(z3.IsSubset(q, p), p != q))
        if x is not None and y is not None and x.sort == 'hs' and y.sort == 'hs':
            p, q = x.hset, y.hset
            if name in ('>', '>='):
                p, q = q, p
            sub = z3.IsSubset(p, q)
            if name in ('<=', '>='):
                return SBool(sub)
            return SBool(z3.And(sub, p != q))
        if x is not None and y is not None and x.sort in ('scalar', 'label') and y.sort in ('scalar', 'label'):
            for o in (x, y):
                if o.sort == 'label' and str in o.cands:
                    if self.split(o, lambda c: c is str):
                        raise PyRaise(TypeError, "'<' not supported between str and int")
            d = self.norm(x.den - y.den)
            if d.is_const():
                v = d.const_value()
                if not v.im:
                    return {'<': v.re < 0, '<=': v.re <= 0, '>': v.re > 0, '>=': v.re >= 0}[name]
            nx, ny = self.norm(x.den), self.norm(y.den)
            if nc.integer_valued(nx) and nc.integer_valued(ny):
                zx, zy = self.z3int(nx), self.z3int(ny)
                if zx is not None and zy is not None:
                    return SBool({'<': zx < zy, '<=': zx <= zy, '>': zx > zy, '>=': zx >= zy}[name])
            return bool(self.ctx.choose(2, '%s %s %s' % (x.name, name, y.name)))
        if isinstance(a, Sym) or isinstance(b, Sym):
            return bool(self.ctx.choose(2, 'order'))
        raise Unsupported('comparison %s' % name)

    def z3int(self, p):
        """z3 integer term of an integer polynomial"""
        r = z3.IntVal(0)
        for (m, w), c in p.t.items():
            if w or c.im or c.re.denominator != 1:
                return None
            t = z3.IntVal(int(c.re))
            for k, e in m:
                a = nc.ATOMS[k]
                if not a.integer or e < 0:
                    return None
                for _ in range(e):
                    t = t * z3.Int(k)
            r = r + t
        return r

    def seq_equal(self, I, a, b):
        return bool(self.ctx.choose(2, 'sequences equal')) if not (a is b) else True

    def contains(self, I, c, x):
        if isinstance(c, SSet):
            if isinstance(x, Obj):
                return SBool(z3.IsMember(self.sym_id(x), c.t))
            raise Unsupported('membership of %r' % (x,))
        raise Unsupported('in %r' % (c,))

    def sym_id(self, o):
        return z3.Int('sym_' + o.name)

    def dict_contains(self, I, d, x):
        raise Unsupported('dict accumulator')

    def seq_contains(self, I, c, x):
        return bool(self.ctx.choose(2, 'contained'))

    def truth(self, I, v):
        if isinstance(v, Obj):
            if v.sort in ('scalar',):
                d = self.norm(v.den)
                if d.is_const():
                    return not d.is_zero()
                if self.ctx.choose(2, 'truth of %s' % v.name) == 0:
                    return True
                self.bind(v.den, ZERO)
                return False
            if v.sort == 'label':
                raise Unsupported('truth of a label')
            if v.sort == 'hs':
                return True
            return True
        if isinstance(v, SSet):
            return not self.ctx.branch(v.t == z3.EmptySet(z3.IntSort()))
        if isinstance(v, ClassOf):
            return True
        raise Unsupported('truth of %r' % v)

    def unknown_bool(self, I, label=''):
        return bool(self.ctx.choose(2, label or 'unknown'))

    # ------------------------------------------------------------ attributes
    def class_attr(self, o, name):
        """group the possible classes by what `name` resolves to"""
        groups = {}
        missing = []
        for c in o.cands:
            try:
                v = inspect.getattr_static(c, name)
            except AttributeError:
                missing.append(c)
                continue
            groups.setdefault(id(v), (v, []))[1].append(c)
        return list(groups.values()), missing

    def pick(self, o, name):
        if o.sort == 'opaque':
            raise Unsupported('%s of %s' % (name, o.name))
        groups, missing = self.class_attr(o, name)
        opts = sorted(groups, key=lambda g: sorted(c.__name__ for c in g[1]))
        if missing:
            opts.append((None, missing))
        i = self.ctx.choose(len(opts), '%s.%s' % (o.name, name)) if len(opts) > 1 else 0
        if len(opts) > 1:
            self.narrow(o, opts[i][1])
        if missing and i == len(opts) - 1:
            if any(name in SRC.instance_attrs(c) for c in missing):
                raise Unsupported('instance attribute %s of %s' % (name, sorted(c.__name__ for c in missing)))
            raise PyRaise(AttributeError, '%s has no attribute %s' % (sorted(c.__name__ for c in missing), name))
        return opts[i][0]

    def space_of(self, o):
        h = o.hset
        r = Obj('space(%s)' % o.name, L.HSS, 'hs', None, h)
        return r

    def free_syms(self, o):
        if isinstance(o, Obj):
            if o.den is not None and self.norm(o.den).is_const():
                return SSet(z3.EmptySet(z3.IntSort()))
            f = z3.Const('syn_' + o.name, ZS)
            if o.den is not None:
                # the value depends on no symbol that does not occur
                self.ctx.assume(z3.IsSubset(self.dep_of(self.norm(o.den)), f))
            return SSet(f)
        raise Unsupported('free_symbols')

    def getattr(self, I, o, name):
        if isinstance(o, ClassOf):
            return self.class_getattr(I, o, name)
        if isinstance(o, SSet):
            return BoundMethod(o, name)
        if not isinstance(o, Obj):
            raise Unsupported('attribute %s of %r' % (name, o))
        if name in o.attrs:
            return o.attrs[name]
        if name == '__class__':
            return ClassOf(o)
        r = self.attr_contract(I, o, name)
        if r is not NotImplemented:
            return r
        if o.sort in ('scalar',) and o.cands & frozenset(L.NATIVE):
            if o.cands <= frozenset(L.NATIVE):
                return self.native_attr(o, name)
            if self.split(o, lambda c: c in L.NATIVE):
                return self.native_attr(o, name)
        v = self.pick(o, name)
        if o.name and name in o.attrs:
            return o.attrs[name]
        if isinstance(v, property):
            r = self.prop_contract(I, o, name)
            if r is not NotImplemented:
                return r
            return I.call_python(v.fget, [o], {})
        if isinstance(v, (staticmethod, classmethod)):
            return BoundMethod(o, name, v)
        if isinstance(v, types.FunctionType):
            return BoundMethod(o, name, v)
        if name.startswith('__') and callable(v):
            return BoundMethod(o, name, v)
        return v

    def native_attr(self, o, name):
        if name in ('conjugate', 'subs', 'diff', 'free_symbols', 'is_integer', 'expand', 'as_coeff_exponent'):
            if name == 'free_symbols':
                if self.split(o, lambda c: c is sympy.Basic):
                    return self.free_syms(o)
                raise PyRaise(AttributeError, 'free_symbols')
            if name != 'conjugate' and not self.split(o, lambda c: c is sympy.Basic):
                raise PyRaise(AttributeError, name)
            return BoundMethod(o, name)
        if all(not hasattr(c, name) for c in o.cands):
            raise PyRaise(AttributeError, 'number has no attribute %s' % name)
        if name == 'adjoint' and self.split(o, lambda c: c is not sympy.Basic):
            raise PyRaise(AttributeError, 'adjoint')
        raise Unsupported('attribute %s of a number' % name)

    def attr_contract(self, I, o, name):
        s = o.sort
        if name in ('space', '_space', '_hs') and s in ('op', 'ket', 'bra', 'sop', 'scalar'):
            if s == 'scalar':
                return self.lift(L.HSA.TrivialSpace)
            if name == 'space':
                if 'hs' in o.attrs:
                    return o.attrs['hs']
                return self.space_of(o)
            return NotImplemented
        if name == 'free_symbols' and not (o.cands & frozenset(L.NATIVE)):
            return self.free_syms(o)
        if name in ('bound_symbols', 'all_symbols') and not (o.cands & frozenset(L.NATIVE)) and \
                s in ('op', 'ket', 'bra', 'sop', 'scalar') and (None, name) not in self.no_contract:
            b = z3.Const('bnd_' + o.name, ZS)
            if name == 'bound_symbols':
                return SSet(b)
            return SSet(z3.SetUnion(self.free_syms(o).t, b))
        if name in ('_sym_args', 'sym_args') and s in ('op', 'ket', 'sop') and \
                all(issubclass(c, L.AQ.QuantumSymbol) for c in o.cands):
            if any(c.__name__ == 'BasisKet' for c in o.cands) and self.split(o, lambda c: c.__name__ == 'BasisKet'):
                return ()
            sg = self.make_seg(o.name + '.sym_args', 'scalar', L.SCALARS)
            sg.determines = o
            self.ctx.assume(sg.n >= 0) if sg.n is not None else None
            self.setattr(I, o, '_sym_args', Seq([sg], 'tuple'))
            self.setattr(I, o, 'sym_args', Seq([sg], 'tuple'))
            return o.attrs[name]
        if name in ('_label', 'label') and s in ('op', 'ket', 'sop') and \
                all(issubclass(c, L.AQ.QuantumSymbol) and c.__name__ != 'BasisKet' for c in o.cands):
            r = Obj(o.name + '.label', frozenset([str]), 'opaque', None, EMPTY)
            r.label_of = o
            self.setattr(I, o, name, r)
            return r
        if name == 'is_zero' and s in ('op', 'ket', 'bra', 'sop', 'scalar') and (None, 'is_zero') not in self.no_contract:
            # contract: True only if the expression is the zero of its algebra
            if self.norm(o.den).is_zero() and False:
                return True
            if self.ctx.choose(2, '%s is zero' % o.name) == 0:
                self.bind(o.den, ZERO)
                return True
            return False
        if s == 'ket' and name in ('isket', 'isbra'):
            return name == 'isket'
        if s == 'bra' and name in ('isket', 'isbra'):
            return name == 'isbra'
        if s == 'ket' and name == 'bra' and not o.refined:
            return self.result('bra', o.den.adj(), o.hset)
        if s == 'bra' and name in ('ket', 'operand'):
            if o.refined:
                return o.attrs['ket']
            if len(o.cands) == 1 and not getattr(o, 'opaque', False):
                self.refine(o)
                return o.attrs['ket']
            return self.result('ket', o.den.adj(), o.hset)
        if s == 'hs':
            if name == 'dimension':
                return self.result('native', self.dim(o), EMPTY, frozenset([int]))
            if name == 'local_factors':
                if self.split(o, lambda c: c is L.HSA.FullSpace.__class__ or c is L.HSA.FullSpace):
                    raise PyRaise(L.EX.AlgebraError, 'FullSpace has no local_factors')
                cands = frozenset(c for c in L.HSS if isinstance(c, type) and issubclass(c, L.HSA.LocalSpace))
                D = self

                def gen(ctx, seg, nm=o.name + '.ls', h=o.hset):
                    e = D.fresh_sort(nm, 'hs', cands)
                    ctx.assume(z3.IsSubset(e.hset, h))
                    return e
                seg = Seg(o.name + '.local_factors', gen)
                seg.kind, seg.cands = 'hs', cands
                return Seq([seg], 'tuple')
        if s == 'range' and name == 'index_symbol':
            r = Obj(o.name + '.idx', {L.IDX.IdxSym}, 'scalar', nc.var('idx_' + o.name, integer=True), EMPTY)
            return r
        if s == 'hs' and name in ('operands', 'args') and {c.__name__ for c in o.cands} == {'ProductSpace'}:
            # contract: the distinct local factors, at least two
            nm = o.name + '.op'
            cands = frozenset(c for c in L.HSS if isinstance(c, type) and issubclass(c, L.HSA.LocalSpace))
            D = self

            def gen(ctx, seg, nm=nm, h=o.hset):
                e = D.fresh_sort(nm, 'hs', cands)
                ctx.assume(z3.IsSubset(e.hset, h))
                return e
            seg = Seg(o.name + '.operands', gen)
            seg.kind, seg.cands, seg.hset_c, seg.whole = 'hs', cands, o.hset, o
            self.ctx.assume(seg.n >= 2)
            return Seq([seg], 'tuple')
        if name == 'operands' or name == 'args':
            r = self.struct_args(o, name)
            if r is not NotImplemented:
                return r
        if name == 'kwargs':
            r = self.struct_kwargs(o)
            if r is not NotImplemented:
                return r
        al = self.struct_attr(o, name)
        if al is not NotImplemented:
            return al
        return NotImplemented

    def struct_attr(self, o, name):
        """attribute that is a constructor argument"""
        if o.refined:
            if name in o.refined.alias:
                return o.attrs[o.refined.alias[name]]
            if name in o.attrs:
                return o.attrs[name]
            if name.startswith('_') and name[1:] in o.attrs:
                return o.attrs[name[1:]]
            return NotImplemented
        has = [c for c in o.cands if c.__name__ in SPEC and name in self._fields(SPEC[c.__name__])]
        if not has or getattr(o, 'opaque', False) and len(o.cands) > 1:
            if not has:
                return NotImplemented
        c = None
        if len(o.cands) > 1:
            if any(self._class_has(c, name) for c in o.cands if c not in has):
                return NotImplemented
            c = self.class_of(o)
            if c not in has:
                if name in SRC.instance_attrs(c):
                    raise Unsupported('instance attribute %s of %s' % (name, c.__name__))
                raise PyRaise(AttributeError, '%s has no attribute %s' % (c.__name__, name))
        if o.refined is None:
            self.refine(o)
        return self.struct_attr(o, name)

    def _class_has(self, c, name):
        try:
            inspect.getattr_static(c, name)
            return True
        except AttributeError:
            return False

    def _fields(self, sp):
        f = set(sp.alias)
        f.update(n for n, _ in sp.pos)
        f.update(n for n, _ in sp.kw)
        if sp.var:
            f.add(sp.var[0])
        return f

    def struct_args(self, o, name):
        if o.sort in ('scalar', 'label') and o.cands & (frozenset(L.NATIVE) | L.LABELS):
            if self.split(o, lambda c: c in L.NATIVE or c in L.LABELS):
                if self.split(o, lambda c: c is not sympy.Basic):
                    raise PyRaise(AttributeError, name)
                if name == 'args' and getattr(o, 'sub', None) is sympy.Add and o.den is not None:
                    # SymPy: an Add is the sum of its args
                    seg = self.make_seg(o.name + '.args', 'native', frozenset([sympy.Basic]), n=z3.Int('len(%s.args)' % o.name))
                    self.ctx.assume(seg.n >= 2)
                    self.bind(self.seg_letter(seg, 'sum', 'scalar'), o.den)
                    self.ctx.contracts_used.add('sympy.Add.args')
                    return Seq([seg], 'tuple')
                raise Unsupported('args of a sympy expression')
        if o.refined is None:
            c = self.class_of(o)
            if c.__name__ in SING_DEN:
                return ()
            if c.__name__ not in SPEC:
                return NotImplemented
            if o.refined is None:
                self.refine(o)
        sp = o.refined
        chunks = [Elem(o.attrs[n]) for n, _ in sp.pos]
        if sp.var:
            chunks += o.attrs[sp.var[0]].chunks
        s = Seq(chunks, 'tuple')
        return tuple(s.values()) if s.concrete() else s

    def struct_kwargs(self, o):
        if o.refined is None:
            c = self.class_of(o)
            if c.__name__ in SING_DEN:
                return {}
            if c.__name__ not in SPEC:
                return NotImplemented
            if o.refined is None:
                self.refine(o)
        return {n: o.attrs[n] for n, _ in o.refined.kw}

    def prop_contract(self, I, o, name):
        nm = {c.__name__ for c in o.cands}
        if nm <= {'LocalSigma', 'LocalProjector'} and name in ('index_j', 'index_k') and \
                ('LocalSigma', name) not in self.no_contract:
            lab = o.attrs['j' if name == 'index_j' or 'k' not in o.attrs else 'k']
            return self.index_of(lab)
        if nm == {'BasisKet'} and name == 'index':
            return self.index_of(o.attrs['label'])
        return NotImplemented

    def index_of(self, lab):
        """contract: the (int or symbolic) index of a basis label"""
        d = self.idx(lab)
        cands = frozenset([int]) | frozenset(c for c in L.LABELS if c not in (int, str))
        o = Obj('index(%s)' % getattr(lab, 'name', lab), cands, 'label', d, EMPTY)
        return o

    def super_attr(self, I, sp, name):
        o = sp.obj
        if isinstance(o, Obj):
            groups = {}
            for c in o.cands:
                mro = c.__mro__
                v = None
                for k in mro[mro.index(sp.cls) + 1:]:
                    if name in k.__dict__:
                        v = k.__dict__[name]
                        break
                groups.setdefault(id(v), (v, []))[1].append(c)
            opts = sorted(groups.values(), key=lambda g: sorted(c.__name__ for c in g[1]))
            i = self.ctx.choose(len(opts), 'super().%s' % name) if len(opts) > 1 else 0
            if len(opts) > 1:
                self.narrow(o, opts[i][1])
            v = opts[i][0]
            if v is None:
                raise PyRaise(AttributeError, name)
            if isinstance(v, property):
                return I.call_python(v.fget, [o], {})
            bm = BoundMethod(o, name, v)
            bm.explicit = True
            return bm
        if isinstance(o, type):
            mro = o.__mro__
            for k in mro[mro.index(sp.cls) + 1:]:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    return _SuperClassCall(self, o, name, v)
        raise Unsupported('super() of %r' % (o,))

    def keep_star(self, v):
        return False

    def make_super(self, I, env):
        e = env
        while e is not None and '__class__' not in e.names:
            e = e.parent
        if e is None:
            raise Unsupported('super() without frame')
        cls = e.names['__class__']
        f = env
        while f is not None and not hasattr(f, 'func_name'):
            f = f.parent
        first = next(iter(f.names.values()))
        return SuperProxy(first, cls)

    def native_getattr(self, I, o, name):
        return NotImplemented

    def class_getattr(self, I, co, name):
        o = co.obj
        if name == '__name__':
            return self.class_of(o).__name__
        v = self.pick(o, name)
        if isinstance(v, classmethod) or name == 'create':
            return BoundMethod(co, name, v)
        if isinstance(v, staticmethod):
            return v.__func__
        return v

    def setattr(self, I, o, name, v):
        if isinstance(o, Obj):
            self.ctx.set_attr(o, 'attrs', dict(o.attrs, **{name: v}))
            return
        raise Unsupported('attribute assignment')

    def native_setattr(self, I, o, name, v):
        raise Unsupported('attribute assignment on %r' % type(o))

    def set_global(self, env, name, v):
        raise Unsupported('global assignment')

    def get_global(self, env, name):
        return env.globs[name]

    def with_stmt(self, I, s, env):
        raise Unsupported('with statement')

    def loop_hook(self, I, s, env):
        return loops.while_hook(self, I, s, env)

    def for_hook(self, I, s, env, it):
        return loops.for_hook(self, I, s, env, it)

    def iterate(self, I, v):
        if isinstance(v, Obj) and v.sort == 'range':
            raise Unsupported('iteration over an index range')
        if isinstance(v, Obj) and v.sort in ('op', 'ket', 'scalar'):
            raise PyRaise(TypeError, 'not iterable')
        if isinstance(v, SSet):
            D = self
            nm = self.ctx.fresh('elems')
            seg = Seg(nm, None)
            seg.kind, seg.cands, seg.sset = 'sym', frozenset([sympy.Symbol, L.IDX.IdxSym]), v.t

            def gen(ctx, sg):
                o = Obj(nm + '.e', seg.cands, 'scalar', nc.var(nm + '.e'), EMPTY)
                o.opaque = True
                return o
            seg.gen = gen
            return Seq([seg], 'list')
        raise Unsupported('iteration over %r' % v)

    def seg_syms(self, c):
        """the set of symbols of a (filtered) run of symbols"""
        base = c.base if isinstance(c, MSeg) else c
        t = base.sset
        if isinstance(c, MSeg):
            for r in c.results:
                # only selection by `isinstance(s, IdxSym)` is understood
                ok = self.ctx.with_path(c.run, r, lambda v: v[0] == 'drop' or
                                        isinstance(v[1], Obj) and v[1].cands == {L.IDX.IdxSym})
                if not ok:
                    raise Unsupported('selection of symbols')
            if sum(r.kind == 'keep' for r in c.results) != 1:
                raise Unsupported('selection of symbols')
            t = z3.SetIntersect(t, IDX)
        return t

    def make_set(self, I, vals):
        if isinstance(vals, (Seq, list)):
            vals2 = vals.chunks if isinstance(vals, Seq) else [Elem(v) for v in vals]
            t = z3.EmptySet(z3.IntSort())
            for c in vals2:
                if isinstance(c, Elem):
                    if isinstance(c.v, Obj):
                        t = z3.SetAdd(t, self.sym_id(c.v))
                    else:
                        raise Unsupported('set of %r' % (c.v,))
                else:
                    # the set of bound index symbols of a run of ranges
                    base = c.base if isinstance(c, MSeg) else c
                    if base.kind == 'range':
                        t = z3.SetUnion(t, z3.Const('bound_' + base.name, ZS))
                    else:
                        raise Unsupported('set over unknown length')
            return SSet(t)
        raise Unsupported('set of %r' % (vals,))

    # ------------------------------------------------------------ calls
    def should_inline(self, I, f):
        m = getattr(f, '__module__', '') or ''
        return m.startswith('qnet.') or m.startswith('specs.') or f in self.inline_extra

    def call_value(self, I, f, args, kwargs):
        if isinstance(f, ClassOf):
            return self.construct(I, self.class_of(f.obj), args, kwargs, 'new')
        raise Unsupported('call of %r' % f)

    def call(self, I, f, args, kwargs):
        h = CALLS.get(f) if _hashable(f) else None
        if h is not None and (f, 'call') not in self.no_contract:
            r = h(self, I, args, kwargs)
            if r is not NotImplemented:
                self.ctx.contracts_used.add(getattr(f, '__qualname__', str(f)))
                return r
        if isinstance(f, _SuperClassCall):
            return f.call(I, args, kwargs)
        if isinstance(f, type):
            if sort_of_class(f) in ('op', 'ket', 'bra', 'sop', 'scalar', 'hs', 'circ') and not f in L.NATIVE \
                    and not issubclass(f, sympy.Basic):
                if is_sym(args) or is_sym(kwargs) or any(isinstance(a, _Star) for a in args):
                    return self.construct(I, f, args, kwargs, 'new')
                return NotImplemented
            if f is int and args and isinstance(args[0], Obj):
                return self.to_int(I, args[0])
            return NotImplemented
        if isinstance(f, types.MethodType) and isinstance(f.__self__, type) and f.__name__ == 'create':
            if is_sym(args) or is_sym(kwargs) or any(isinstance(a, _Star) for a in args):
                return self.construct(I, f.__self__, args, kwargs, 'create')
            return NotImplemented
        if isinstance(f, types.MethodType) and not isinstance(f.__self__, type) and is_sym(list(args)):
            o = self.lift(f.__self__)
            if o is not None:
                return self.call_method(I, BoundMethod(o, f.__name__, f.__func__), args, kwargs)
        return NotImplemented

    def set_method(self, I, o, name, args, kwargs):
        if isinstance(o, (set, frozenset)) and name in ('issubset', 'isdisjoint') and len(args) == 1 and isinstance(args[0], SSet):
            t = union(*[z3.SetAdd(EMPTY, deriv.SYMID if x is deriv.SYM else z3.Int('sym_' + str(x))) for x in o])
            return SBool(z3.IsSubset(t, args[0].t) if name == 'issubset' else
                         z3.SetIntersect(t, args[0].t) == EMPTY)
        raise Unsupported('set method %s' % name)

    def kwargs_norm(self, f, kwargs):
        return kwargs

    def construct(self, I, cls, args, kwargs, via):
        nm = cls.__name__
        if (nm, via) in self.no_contract:
            raise Unsupported('constructing %s under verification' % nm)
        if sort_of_class(cls) == 'hs':
            return self.construct_hs(I, cls, args, kwargs, via)
        if nm == 'ScalarValue':
            return self.scalar_value(args, via)
        if nm.endswith('Derivative'):
            r = self.construct_other(I, cls, args, kwargs, via)
            if r is not NotImplemented:
                return r
        if nm.endswith('Symbol'):
            r = self.construct_symbol(nm, args, kwargs)
            if r is not NotImplemented:
                return r
        if nm not in SPEC:
            r = self.construct_other(I, cls, args, kwargs, via)
            if r is not NotImplemented:
                return r
            raise Unsupported('no contract for class %s' % nm)
        sp = SPEC[nm]
        self.ctx.contracts_used.add('%s.%s' % (nm, 'create' if via == 'create' else '__init__'))
        a = self.bind_spec(nm, sp, args, kwargs)
        if via == 'create' and nm in ('OperatorTimes', 'OperatorPlus', 'KetPlus', 'TensorKet', 'SuperOperatorPlus',
                                      'SuperOperatorTimes', 'ScalarPlus', 'ScalarTimes'):
            # bras are accepted by the ket operations
            vals = [c.v for c in a['operands'].chunks if isinstance(c, Elem)]
            if sp.sort == 'ket' and vals and all(getattr(v, 'sort', None) == 'bra' for v in vals) and \
                    len(vals) == len(a['operands'].chunks):
                den = self.fold(a['operands'], 'sum' if nm == 'KetPlus' else 'prod')
                return self.result('bra', den, self.sub_hset(self.seq_hset(a['operands'])))
        if via == 'create' and nm == 'ScalarTimesKet' and a['term'].sort == 'bra':
            return self.result('bra', self.num(a['coeff']) * a['term'].den, a['term'].hset)
        if sp.pre:
            for f in sp.pre(self, a):
                self.ctx.assume(f)
        den = sp.den(self, a)
        h = sp.hset(self, a) if sp.hset else EMPTY
        if via == 'create':
            return self.result(sp.sort, den, self.sub_hset(h) if sp.hset else EMPTY)
        o = Obj(self.ctx.fresh(nm), {cls}, sp.sort, den, h, a)
        o.refined = sp
        return o

    def construct_symbol(self, nm, args, kwargs):
        """a symbol is determined by its class, label, arguments and space"""
        lab = args[0] if args else None
        own = getattr(lab, 'label_of', None)
        if own is None or set(kwargs) != {'hs'} or {c.__name__ for c in own.cands} != {nm}:
            return NotImplemented
        if len(args) != 2 or not isinstance(args[1], _Star) or len(args[1].seq.chunks) != 1:
            return NotImplemented
        c, = args[1].seq.chunks
        base = c.base if isinstance(c, MSeg) else c
        if getattr(base, 'determines', None) is not own or c.rev or kwargs['hs'].hset is None or \
                not self.entails_cached(kwargs['hs'].hset == own.hset):
            return NotImplemented
        if isinstance(c, MSeg):
            e = nc.var(self.elem_key(base))
            for r in c.results:
                if r.kind != 'keep' or not self.ctx.with_path(
                        c.run, r, lambda v: self.norm(self.den_of(v[1]) - e).is_zero()):
                    return NotImplemented
        return self.result(own.sort, own.den, own.hset)

    def construct_other(self, I, cls, args, kwargs, via):
        if cls.__name__.endswith('Derivative') and set(kwargs) <= {'derivs', 'vals'} and kwargs.get('vals') is None:
            dv = kwargs.get('derivs')
            if isinstance(dv, dict) and dv == {deriv.SYM: 1} and len(args) == 1:
                o = self.lift(args[0])
                sort = o.sort
                if cls.__name__ != 'QuantumDerivative' and sort not in ('bra',) and \
                        sort != {'O': 'op', 'S': 'ket', 'D': None}.get(cls.__name__[0], None) and \
                        sort != {'ScalarDerivative': 'scalar', 'SuperOperatorDerivative': 'sop'}.get(cls.__name__):
                    raise PyRaise(AssertionError, 'operand of another algebra')
                return self.result(sort, deriv.ddiff(self, o.den), self.sub_hset(o.hset) if sort != 'scalar' else EMPTY)
        return NotImplemented

    def construct_hs(self, I, cls, args, kwargs, via):
        if cls.__name__ == 'ProductSpace':
            h = EMPTY
            for x in args:
                if isinstance(x, _Star):
                    for c in x.seq.chunks:
                        if isinstance(c, Elem):
                            h = z3.SetUnion(h, c.v.hset)
                        elif isinstance(c, Seg):
                            h = z3.SetUnion(h, self.seg_hset(c))
                        else:
                            h = z3.SetUnion(h, self.mseg_space_union(c))
                else:
                    h = z3.SetUnion(h, self.lift(x).hset)
            return Obj(self.ctx.fresh('hs'), L.HSS, 'hs', None, h)
        raise Unsupported('construct %s' % cls.__name__)

    def mseg_space_union(self, c):
        raise Unsupported('union of spaces over unknown length')

    def scalar_value(self, args, via):
        v = args[0]
        o = self.lift(v)
        if o is None:
            raise Unsupported('ScalarValue(%r)' % (v,))
        if via == 'create' and o.cands <= L.SCALARS:
            return o
        if via == 'new' and not (o.cands & frozenset(L.NATIVE)):
            raise PyRaise(TypeError, 'val must be a native number')
        cands = L.SCALARS if via == 'create' else {L.SA.ScalarValue}
        r = self.result('scalar', o.den, EMPTY, cands)
        if via == 'new':
            r.attrs = {'val': v, '_val': v}
        return r

    def bind_spec(self, nm, sp, args, kwargs):
        a = {}
        flat = []
        for x in args:
            if isinstance(x, _Star):
                flat.extend(x.seq.chunks)
            else:
                flat.append(Elem(x))
        kwargs = dict(kwargs)
        for n, kind in sp.pos:
            if n in kwargs:
                a[n] = self.coerce(kwargs.pop(n), kind)
                continue
            if not flat or not isinstance(flat[0], Elem):
                if not flat:
                    raise PyRaise(TypeError, '%s: missing argument %s' % (nm, n))
                raise Unsupported('segment for argument %s' % n)
            a[n] = self.coerce(flat.pop(0).v, kind)
        if sp.var:
            ch = []
            for c in flat:
                if isinstance(c, Elem):
                    ch.append(Elem(self.coerce(c.v, sp.var[1])))
                else:
                    ch.append(c)
            a[sp.var[0]] = Seq(ch, 'tuple')
        elif flat:
            raise PyRaise(TypeError, '%s: too many arguments' % nm)
        for n, kind in sp.kw:
            if n not in kwargs:
                if n == 'sign':
                    a[n] = self.lift(1)
                    continue
                raise PyRaise(TypeError, '%s: missing keyword %s' % (nm, n))
            a[n] = self.coerce(kwargs.pop(n), kind)
        if kwargs:
            raise PyRaise(TypeError, '%s: unexpected keyword %s' % (nm, sorted(kwargs)))
        return a

    def coerce(self, v, kind):
        o = self.lift(v)
        if kind == 'label':
            if o is None:
                raise Unsupported('label %r' % (v,))
            return o
        if o is None:
            raise Unsupported('argument %r where a %s is expected' % (v, kind))
        if kind == 'op' and o.sort in ('scalar', 'label'):
            return self.result('op', o.den, EMPTY)
        if kind in ('ls', 'spinls', 'hs'):
            if o.sort != 'hs':
                raise Unsupported('space expected')
            return o
        if kind == 'ket' and o.sort not in ('ket', 'bra'):
            raise PyRaise(TypeError, 'kets expected')
        if kind == 'range':
            return o
        return o

    # ---- method contracts
    def call_method(self, I, m, args, kwargs):
        o, name = m.obj, m.name
        if isinstance(o, SSet):
            if name in ('intersection', 'union', 'difference'):
                op = {'intersection': '&', 'union': '|', 'difference': '-'}[name]
                r = o
                for x in args:
                    r = self.sset_binop(op, r, x)
                return r
            if name == 'issubset':
                return SBool(z3.IsSubset(o.t, self.sset(args[0])))
            if name == 'isdisjoint':
                return SBool(z3.SetIntersect(o.t, self.sset(args[0])) == z3.EmptySet(z3.IntSort()))
            if name == 'copy':
                return SSet(o.t)
            raise Unsupported('set method %s' % name)
        if isinstance(o, ClassOf):
            if name == 'create':
                c = self.class_of(o.obj)
                return self.construct(I, c, args, kwargs, 'create')
            raise Unsupported('class method %s' % name)
        if not isinstance(o, Obj):
            raise Unsupported('method %s of %r' % (name, o))
        if not getattr(m, 'explicit', False):
            r = self.method_contract(I, o, name, args, kwargs)
            if r is not NotImplemented:
                self.ctx.contracts_used.add('%s.%s' % (o.sort, name))
                return r
        f = m.func
        if f is None:
            f = self.pick(o, name)
        if isinstance(f, classmethod):
            if name == 'create':
                return self.construct(I, self.class_of(o), args, kwargs, 'create')
            return I.call_python(f.__func__, [self.class_of(o)] + list(args), kwargs)
        if isinstance(f, staticmethod):
            return I.call(f.__func__, args, kwargs)
        if isinstance(f, types.FunctionType):
            return I.call_python(f, [o] + list(args), kwargs)
        raise Unsupported('method %s of %r' % (name, o))

    SELF_DEN = ('expand', 'simplify_scalar', 'doit', 'rebuild', '_expand', '_simplify_scalar', '_doit')

    def method_contract(self, I, o, name, args, kwargs):
        s = o.sort
        if (None, name) in self.no_contract:
            return NotImplemented
        if s in ('op', 'ket', 'bra', 'sop') and name in ('adjoint', 'dag', '_adjoint'):
            t = {'ket': 'bra', 'bra': 'ket'}.get(s, s)
            if s == 'sop':
                return self.result(t, self.norm(o.den).dual(), o.hset)
            return self.result(t, o.den.adj(), self.sub_hset(o.hset) if s == 'op' else o.hset)
        if s in ('scalar', 'label') and name in ('conjugate', 'adjoint', 'dag', '_adjoint'):
            native = o.cands <= frozenset(L.NATIVE)
            return self.result('native' if native else 'scalar', o.den.conj(), EMPTY, o.cands if native else
                               (L.SCALARS | (o.cands & frozenset(L.NATIVE))))
        if s in ('op', 'ket', 'bra', 'sop', 'scalar') and name in self.SELF_DEN:
            if s == 'scalar' and o.cands & frozenset(L.NATIVE) and name not in ('expand',):
                return NotImplemented
            return self.result(s, o.den, self.sub_hset(o.hset) if s != 'scalar' else EMPTY)
        if name in ('diff', '_diff') and s in ('op', 'ket', 'bra', 'sop', 'scalar'):
            if s == 'scalar' and o.cands & frozenset(L.NATIVE) and not self.split(o, lambda c: c not in L.NATIVE):
                return NotImplemented
            if not args or args[0] is not deriv.SYM or len(args) > 1 or set(kwargs) - {'expand_simplify'}:
                raise Unsupported('derivative with respect to another symbol')
            return self.result(s, deriv.ddiff(self, o.den), self.sub_hset(o.hset) if s != 'scalar' else EMPTY)
        if name in ('pseudo_inverse', '_pseudo_inverse') and s == 'op':
            return self.result('op', self.pinv(o), self.sub_hset(o.hset))
        nm = {c.__name__ for c in o.cands}
        if name == 'raise_jk' and nm <= {'LocalSigma', 'LocalProjector'}:
            ji = kwargs.get('j_incr', args[0] if args else 0)
            ki = kwargs.get('k_incr', args[1] if len(args) > 1 else 0)
            hs = o.attrs['hs']
            j = self.idx(o.attrs['j']) + self.num(ji)
            k = self.idx(o.attrs.get('k', o.attrs['j'])) + self.num(ki)
            d = basis_ket(hs.name, hs.hset, j) * basis_ket(hs.name, hs.hset, k, adj=True)
            return self.result('op', d, self.sub_hset(hs.hset))
        if name in ('next', 'prev') and nm == {'BasisKet'}:
            n = self.num(args[0] if args else kwargs.get('n', 1))
            hs = o.attrs['hs']
            i = self.idx(o.attrs['label'])
            return self.result('ket', basis_ket(hs.name, hs.hset, i + n if name == 'next' else i - n), hs.hset)
        if s == 'hs':
            if name in ('isdisjoint', 'is_disjoint'):
                return SBool(z3.SetIntersect(o.hset, self.lift(args[0]).hset) == EMPTY)
            if name == 'intersect':
                return self.hs_binop('&', o, self.lift(args[0]))
            if name == 'remove':
                return self.hs_binop('-', o, self.lift(args[0]))
        if s == 'range' and name == 'piecewise_one':
            return NotImplemented
        if name == 'make_disjunct_indices' and all(c.__name__.endswith('IndexedSum') for c in o.cands):
            return self.disjunct_contract(I, o, args)
        if name == 'factor_for_space' and s in ('op', 'ket'):
            return self.factor_contract(o, self.lift(args[0]))
        if name == '_factor_for_space':
            return NotImplemented
        return NotImplemented

    def index_syms(self, v):
        """index symbols occurring (free or bound) in a value, as make_disjunct_indices sees it"""
        if isinstance(v, _Star):
            return union(*[self.index_syms(x) for x in v.seq.chunks])
        if isinstance(v, Elem):
            return self.index_syms(v.v)
        if isinstance(v, (Seg, MSeg)):
            if getattr(v, 'kind', None) == 'range':
                return z3.Const('bound_' + v.name, ZS)
            return self.seg_syms(v)
        if isinstance(v, (tuple, list)):
            return union(*[self.index_syms(x) for x in v])
        if isinstance(v, Seq):
            return union(*[self.index_syms(x) for x in v.chunks])
        if isinstance(v, Obj) and v.sort == 'range':
            return z3.SetAdd(EMPTY, z3.Int('sym_%s.idx' % v.name))
        if isinstance(v, Obj):
            if v.cands <= {int, float, complex}:
                return EMPTY
            fs = self.free_syms(v).t
            if v.cands & frozenset(L.NATIVE):
                return z3.SetIntersect(fs, IDX)
            if v.refined and v.refined.var and v.refined.var[1] == 'range':
                return z3.SetIntersect(z3.SetUnion(fs, *[b for _, b in self.range_id(v.attrs['ranges'])]), IDX)
            return z3.SetIntersect(z3.SetUnion(fs, z3.Const('bnd_' + v.name, ZS)), IDX)
        raise Unsupported('index symbols of %r' % (v,))

    def disjunct_contract(self, I, o, args):
        """contract: an indexed sum of the same class with the same value whose
        bound symbols occur nowhere in the others"""
        c = self.class_of(o)
        if o.refined is None:
            self.refine(o)
        new = self.fresh_sort(self.ctx.fresh(o.name + "'"), o.sort, {c}, o.hset)
        comps = self.range_id(new.attrs['ranges'])
        bound = union(*[b for _, b in comps])
        avoid = union(*[self.index_syms(a) for a in args])
        self.ctx.assume(z3.SetIntersect(bound, avoid) == EMPTY)
        self.ctx.assume(z3.IsSubset(bound, IDX))
        fs = self.free_syms(o).t
        self.ctx.assume(z3.Const('syn_' + new.name, ZS) == fs)
        self.ctx.assume(z3.IsSubset(self.dep_of(self.norm(new.attrs['term'].den)), z3.SetUnion(fs, bound)))
        d = self.norm(o.den)
        done = False
        if len(d.t) == 1:
            ((m, w), cc), = d.t.items()
            key = w[0] if len(w) == 1 and not m else m[0][0] if not w and len(m) == 1 and m[0][1] == 1 else None
            if key is not None and cc == nc.CQ(1):
                self.ctx.set_item(self.ctx.sub, key, self.norm(new.den))
                self._comm_reset()
                done = True
        if not done:
            self.bind(o.den, new.den)
        return new

    def factor_contract(self, o, hs):
        """contract: on * off = self, off does not touch hs"""
        a = self.ctx.fresh(o.name + '.on')
        b = self.ctx.fresh(o.name + '.off')
        x = self.fresh_sort(a, o.sort)
        y = self.fresh_sort(b, o.sort)
        c = self.ctx
        c.assume(z3.Or(z3.SetIntersect(y.hset, hs.hset) == EMPTY, hs.hset == EMPTY))
        c.assume(z3.SetIntersect(x.hset, y.hset) == EMPTY) if o.sort == 'ket' else None
        c.assume(z3.SetUnion(x.hset, y.hset) == o.hset)
        self.bind(o.den, x.den * y.den)
        return (x, y)

    # ---- misc hooks not needed by the rule layer
    def length(self, I, o):
        if isinstance(o, SSet):
            # len(set): only comparison with 0 is meaningful
            n = z3.Int('card_%d' % (abs(hash(o.t.sexpr())) % 10 ** 9))
            self.ctx.assume(n >= 0)
            self.ctx.assume((n == 0) == (o.t == z3.EmptySet(z3.IntSort())))
            return SInt(n)
        if isinstance(o, Obj) and o.sort == 'range':
            if self.ctx.choose(2, 'len defined') == 1:
                raise PyRaise(TypeError, 'infinite range')
            return SInt(z3.Int('len_' + o.name))
        raise Unsupported('len(%r)' % o)

    def to_int(self, I, o):
        if isinstance(o, Obj) and o.sort == 'scalar':
            if self.ctx.choose(2, 'int(%s)' % o.name) == 1:
                raise PyRaise(TypeError, 'cannot convert to int')
            r = self.result('native', nc.var('int<%s>' % self.norm(o.den), integer=True), EMPTY, frozenset([int]))
            return r
        raise PyRaise(TypeError, 'int()')

    def str_of(self, I, o):
        return SymStr()

    def sum_seq(self, I, s, start):
        o = self.lift(start)
        if o is None:
            if isinstance(start, (tuple, list)):
                raise Unsupported('sum of sequences')
            raise Unsupported('sum start %r' % (start,))
        den = o.den + self.fold(s, 'sum')
        kinds = {self._chunk_sort(c) for c in s.chunks}
        kinds.discard(None)
        if len(kinds) != 1:
            raise Unsupported('sum over mixed sorts')
        k = kinds.pop()
        return self.result(k, den, self.sub_hset(self.seq_hset(s)) if k != 'scalar' else EMPTY)

    def _chunk_sort(self, c):
        if isinstance(c, Elem):
            return self.lift(c.v).sort
        if isinstance(c, Seg):
            return c.kind
        for r in c.results:
            if r.kind == 'keep':
                v = self.ctx.with_path(c.run, r, lambda v: v[1])
                o = self.lift(v)
                if o is not None:
                    return o.sort
        return c.base.kind

    def all_seq(self, I, s):
        """all(...) over runs of unknown length"""
        for c in s.chunks:
            if isinstance(c, Elem):
                if not I.truth(c.v):
                    return False
                continue
            if not isinstance(c, MSeg):
                raise Unsupported('all() over a run')
            rs = [r for r in c.results if r.kind == 'keep']
            vals = [self.ctx.with_path(c.run, r, lambda v: I.truth(v[1])) for r in rs]
            if all(vals):
                continue
            if self.ctx.choose(2, 'all over %s' % c.base.name) == 1:
                return False
            # on this path every element takes one of the true cases
            own = getattr(c.base, 'determines', None)
            if own is not None:
                e = nc.var(self.elem_key(c.base))
                if all(self.ctx.with_path(c.run, r, lambda v: self.norm(deriv.ddiff(self, e)).is_zero())
                       for r, v in zip(rs, vals) if v):
                    self.ctx.assume(z3.Not(z3.IsMember(deriv.SYMID, self.dep_of(own.den))))
        return True

    def __getattr__(self, name):
        def missing(*a, **k):
            raise Unsupported('domain operation %s' % name)
        if name.startswith('__'):
            raise AttributeError(name)
        return missing


class _SuperClassCall:
    def __init__(self, dom, cls, name, v):
        self.dom, self.cls, self.name, self.v = dom, cls, name, v

    def call(self, I, args, kwargs):
        f = self.v.__func__ if isinstance(self.v, (classmethod, staticmethod)) else self.v
        if self.name == 'create':
            return self.dom.construct(I, self.cls, args, kwargs, 'create')
        return I.call_python(f, [self.cls] + list(args), kwargs)


def _occurs(key, p):
    """does the letter/atom occur in p (also inside composite letters)"""
    mark = nc.letter('?mark', nc.LETTERS[key].sort) if key in nc.LETTERS else nc.var('?mark')
    try:
        return p.subst({key: mark}) != p
    except (KeyError, ValueError):
        return True


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _short(p, n=600):
    s = p.key()
    return s if len(s) <= n else s[:n] + '...'


def sympy_den(v):
    if v is sympy.I:
        return nc.IMAG
    if v.is_Rational:
        return P.const(nc.F(int(v.p), int(v.q)))
    if v.is_Add:
        r = ZERO
        for a in v.args:
            r = r + sympy_den(a)
        return r
    if v.is_Mul:
        r = ONE
        for a in v.args:
            r = r * sympy_den(a)
        return r
    if v.is_Pow:
        return nc.power(sympy_den(v.args[0]), sympy_den(v.args[1]))
    if isinstance(v, sympy.exp):
        return nc.exp(sympy_den(v.args[0]))
    if v.is_Float:
        return P.const(nc.F(float(v)))
    if v.is_Symbol or v.is_NumberSymbol:
        return nc.var(str(v), real=bool(v.is_real))
    raise Unsupported('sympy constant %s' % v)


# ---------------------------------------------------------------------------
# functions with contracts

CALLS = {}


def contract(f):
    def deco(g):
        CALLS[f] = g
        return g
    return deco


def _symarg(args):
    return is_sym(list(args))


@contract(sympy.sqrt)
def _sqrt(D, I, args, kw):
    if not _symarg(args):
        return NotImplemented
    o = D.lift(args[0])
    if o.sort == 'label' and str in o.cands and D.split(o, lambda c: c is str):
        raise PyRaise(TypeError, 'sqrt of string')
    return D.scalar_result(nc.sqrt(o.den), o) if not (o.cands - frozenset(L.NATIVE) - L.LABELS) else \
        D.result('scalar', nc.sqrt(o.den), EMPTY)


CALLS[L.SA.sqrt] = _sqrt


@contract(sympy.exp)
def _exp(D, I, args, kw):
    if not _symarg(args):
        return NotImplemented
    o = D.lift(args[0])
    return D.result('native', nc.exp(D.norm(o.den)), EMPTY, frozenset([sympy.Basic]))


@contract(sympy.diff)
def _diff(D, I, args, kw):
    if not _symarg(args):
        return NotImplemented
    if len(args) != 2 or args[1] is not deriv.SYM:
        raise Unsupported('derivative with respect to another symbol')
    o = D.lift(args[0])
    return D.result('native', deriv.ddiff(D, o.den), EMPTY, frozenset([sympy.Basic]))


@contract(sympy.sympify)
def _sympify(D, I, args, kw):
    if not _symarg(args):
        return NotImplemented
    o = D.lift(args[0])
    return D.result('native', o.den, EMPTY, frozenset([sympy.Basic]))


@contract(L.SA.KroneckerDelta)
def _kd(D, I, args, kw):
    if not _symarg(args):
        return NotImplemented
    return D.result('scalar', nc.delta(D.idx(args[0]), D.idx(args[1])), EMPTY)


if L.SA.KroneckerDelta is not sympy.KroneckerDelta:
    CALLS[sympy.KroneckerDelta] = _kd


@contract(L.SA.is_scalar)
def _is_scalar(D, I, args, kw):
    o = args[0]
    if isinstance(o, Obj):
        return D.split(o, lambda c: c in L.SCALARS or c in L.NATIVE)
    if isinstance(o, SInt):
        return True
    return NotImplemented


@contract(L.OA.LocalProjector)
def _lproj(D, I, args, kw):
    if not _symarg(list(args) + list(kw.values())):
        return NotImplemented
    a = D.bind_spec('LocalProjector', SPEC['LocalProjector'], args, kw)
    return D.construct(I, L.OA.LocalSigma, [a['j'], a['j']], {'hs': a['hs']}, 'new')


def _coeff(kind):
    def f(D, I, args, kw):
        ls, m = args[0], args[1] if len(args) > 1 else kw['m']
        if not isinstance(ls, Obj):
            return NotImplemented
        # contract (shift=True): m is an index, the magnetic number is m - s
        if kw.get('shift', args[2] if len(args) > 2 else False) is not True:
            return NotImplemented
        if not D.split(ls, lambda c: issubclass(c, L.SPA.SpinSpace)):
            raise PyRaise(AssertionError, 'SpinSpace')
        from .reduce import jp, jm
        n = D.idx(m)
        den = {'p': jp(ls.name, n), 'm': jm(ls.name, n), 'z': n - spin(ls.name)}[kind]
        return D.result('native', den, EMPTY, frozenset([sympy.Basic]))
    return f


CALLS[L.SPA.Jpjmcoeff] = _coeff('p')
CALLS[L.SPA.Jmjmcoeff] = _coeff('m')
CALLS[L.SPA.Jzjmcoeff] = _coeff('z')
