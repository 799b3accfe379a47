"""Contracts of the simplifications that `create` applies to the arguments
(algebraic_properties.py) and of the ordering keys (C05-C10, C06, C26).

The operands of a product are known by what they do: act(x, s) is the result
of letting the operand x act on (being multiplied onto) an arbitrary s.  A
list of operands is known by its fold; a simplification keeps the fold:

    fold(result, s) = fold(operands, s)      for every s

so that the obligations hold for any number of operands, any monoid (operators
with exactly the commutations that the ordering key promises, super-operators,
circuits in series) and any class.  Sums are folds of commuting actions; where
coefficients are collected, they are real polynomials of a linear functional."""
import sys
import ast
import importlib
import contextlib
from collections import OrderedDict
from pyvc import live   # noqa: F401
import z3
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, Obj, Loop, to_fl, vsub, vite
from pyvc.engine import PyRaise, BoundMethod, Unsupported, Infeasible, Sym, Env, PathEnd
from pyvc.source import where, unwrap
AP = importlib.import_module('qnet.algebra.core.algebraic_properties')
ORD = importlib.import_module('qnet.utils.ordering')
PMT = importlib.import_module('qnet.algebra.pattern_matching')
EXC = importlib.import_module('qnet.algebra.core.exceptions')
CIR = importlib.import_module('qnet.algebra.core.circuit_algebra')
OPA = importlib.import_module('qnet.algebra.core.operator_algebra')
STA = importlib.import_module('qnet.algebra.core.state_algebra')
SCA = importlib.import_module('qnet.algebra.core.scalar_algebra')
SOP = importlib.import_module('qnet.algebra.core.super_operator_algebra')
AQA = importlib.import_module('qnet.algebra.core.abstract_quantum_algebra')
HSA = importlib.import_module('qnet.algebra.core.hilbert_space_algebra')

V = z3.DeclareSort('Operand')
M = z3.DeclareSort('Product')
INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
ACT = z3.Function('act', V, M, M)
LT = z3.Function('key_less', V, V, BOOL)
EQ = z3.Function('equal', V, V, BOOL)
IS = z3.Function('is_instance_of_cls', V, BOOL)
CD = z3.Function('cdim', V, INT)
CID = z3.Function('circuit_identity', INT, V)
ONLEN = z3.Function('n_operands', V, INT)
ONEL = z3.Function('operand', V, INT, V)
ONG = z3.Function('operands_fold', V, INT, INT, M, M)
CN = z3.Const('neutral_element', V)
ONE = z3.Const('cls_one', V)
TIMES_ONE = z3.Function('multiple_of_one', V, V)
PHI = z3.Function('value', V, REAL)
S0 = z3.Const('s0', M)


class El(Sym):
    """an operand"""

    def __init__(self, t):
        self.t = t

    def vsub(self, pairs):
        return El(z3.substitute(self.t, *pairs))

    def vite(self, c, o):
        if not isinstance(o, El):
            raise Unsupported('merge of an operand and %r' % (o,))
        return El(z3.If(c, self.t, o.t))

    def __repr__(self):
        return 'El(%s)' % self.t


class Key(Sym):
    """cls.order_key(x)"""

    def __init__(self, t):
        self.t = t

    def vsub(self, pairs):
        return Key(z3.substitute(self.t, *pairs))

    def vite(self, c, o):
        if not isinstance(o, Key):
            raise Unsupported('merge of a key and %r' % (o,))
        return Key(z3.If(c, self.t, o.t))


class RV(Sym):
    """a number or an expression, known by its value under a linear functional"""

    def __init__(self, t):
        self.t = t

    def vsub(self, pairs):
        return RV(z3.substitute(self.t, *pairs))

    def vite(self, c, o):
        return RV(z3.If(c, self.t, rv(o)))


def rv(x):
    if isinstance(x, RV):
        return x.t
    if isinstance(x, El):
        return PHI(x.t)
    if isinstance(x, int):
        return z3.RealVal(x)
    if x is SCA.Zero:
        return z3.RealVal(0)
    if x is SCA.One:
        return z3.RealVal(1)
    raise Unsupported('value of %r' % (x,))


class KW(Sym):
    """the keyword arguments"""


class ClsV(Sym):
    """the class: anything the simplification may know about it"""


class WL(FL):
    """a list of operands with its fold: seg(lo, hi, s)"""

    def __init__(self, n, get, seg, kind='list', whole=None, touch=None):
        FL.__init__(self, n, get, kind)
        self.seg = seg
        self._whole = whole
        self.touch = touch or (lambda p: None)

    def whole(self, s):
        if self._whole is not None:
            return self._whole(s)
        return self.seg(z3.IntVal(0), zi(self.n), s)

    def vsub(self, pairs):
        a, b, s = z3.Int('wa!'), z3.Int('wb!'), z3.Const('ws!', M)
        body = z3.substitute(self.seg(a, b, s), *pairs)
        w = z3.substitute(self.whole(s), *pairs)
        return WL(z3.substitute(zi(self.n), *pairs), lambda i: od._safe(self, i, pairs) if od._clash(i, pairs) else vsub(self.get(i), pairs),
                  lambda lo, hi, t: z3.substitute(body, (a, lo), (b, hi), (s, t)), self.kind, lambda t: z3.substitute(w, (s, t)))

    def vite(self, c, o):
        o = as_wl(o)
        return WL(z3.If(c, zi(self.n), zi(o.n)), lambda i: vite(c, self.get(i), o.get(i)),
                  lambda lo, hi, s: z3.If(c, self.seg(lo, hi, s), o.seg(lo, hi, s)), self.kind,
                  lambda s: z3.If(c, self.whole(s), o.whole(s)))


class PS(Sym):
    """a list known by its length and the sum of its values"""


class AL(FL):
    """a list of summands with its sum"""

    def __init__(self, n, get, tot, kind='list'):
        FL.__init__(self, n, get, kind)
        self.tot = tot


class CMap(Sym):
    """a dictionary {term: coefficient}, known by the sum of coefficient*value(term)"""

    def __init__(self, tot):
        self.tot = tot
        self.memo = {}


def el_of(v):
    if isinstance(v, El):
        return v
    if isinstance(v, tuple):
        e = [x for x in v if isinstance(x, El)]
        if len(e) == 1:
            return e[0]
    raise Unsupported('operand expected: %r' % (v,))


def as_wl(v):
    if isinstance(v, WL):
        return v
    if is_empty(v):
        v = []
    if isinstance(v, (list, tuple)):
        els = [el_of(x) for x in v]
        f = to_fl(list(v))

        def whole(s):
            for x in reversed(els):
                s = ACT(x.t, s)
            return s

        def seg(lo, hi, s):
            for k in range(len(els) - 1, -1, -1):
                s = z3.If(z3.And(lo <= k, k < hi), ACT(els[k].t, s), s)
            return z3.simplify(s) if z3.is_int_value(lo) and z3.is_int_value(hi) else s
        return WL(f.n, f.get, seg, type(v).__name__, whole)
    raise Unsupported('list of operands expected: %r' % (v,))


class SInterp(od.OInterp):
    def is_(self, a, b):
        if isinstance(a, KW) or isinstance(b, KW):
            return a is b
        if isinstance(a, (El, RV, WL, Key)) and b is None or a is None and isinstance(b, (El, RV, WL, Key)):
            return False
        return super().is_(a, b)

    def binop(self, op, a, b, inplace=False):
        if isinstance(a, (RV, El)) or isinstance(b, (RV, El)):
            return self.dom.arith(self, op, a, b)
        return super().binop(op, a, b, inplace)

    def contains(self, c, x):
        if isinstance(c, CMap):
            return self.dom.map_has(c, x)
        return super().contains(c, x)

    def getitem(self, o, i):
        if isinstance(o, CMap):
            return self.dom.map_get(o, i)
        return super().getitem(o, i)

    def setitem(self, o, i, v):
        if isinstance(o, CMap):
            return self.dom.map_set(o, i, v)
        return super().setitem(o, i, v)


class SDomain(od.ODomain):
    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.ident = []            # (x, condition)
        self.wholes = []           # (x, fold, condition): x acts like the fold
        self.bases = {}
        self.held = []
        self.all_commute = self.keyed = self.summands = False
        self.ident.append((CN, z3.BoolVal(True)))
        C = self.contracts
        C[unwrap(AP.match_pattern)] = c_match
        C[OrderedDict] = lambda D, I, a, kw: OrderedDict() if not a and not kw else NotImplemented
        C[unwrap(CIR.circuit_identity)] = c_cid
        C[sum] = c_sum
        self.classes[PMT.ProtoExpr] = lambda D, I, a, kw: Proto(*(list(a) + [kw[k] for k in ('args', 'kwargs') if k in kw]))

    # ------------------------------------------------ lists of operands
    def base(self, name, n=None, kind='tuple', keyed=False, whole=None, elem=None):
        n = zi(n) if n is not None else self.fresh('n_' + name)
        self.fact(n >= 0)
        x = elem or self.fresh_fn('x_' + name, INT, V)
        nm = self.ctx.fresh('fold_' + name)
        G = z3.Function(nm, INT, INT, M, M)
        b = dict(G=G, pts={}, els={}, n=n, x=x, whole=whole)
        self.bases[nm] = b
        self.touch(b, z3.IntVal(0))
        self.touch(b, n)

        def get(i):
            i = z3.simplify(zi(i))
            if not any(od._occurs(g, i) for g in self.generic):
                b['els'][i.get_id()] = i
            e = El(x(i))
            return (Key(e.t), e) if keyed else e
        return WL(n, get, lambda lo, hi, s: G(lo, hi, s), kind, None, lambda p: self.touch(b, p))

    def touch(self, b, p):
        p = z3.simplify(zi(p))
        b['pts'][p.get_id()] = p

    def operands(self, x):
        t = x.t
        n = ONLEN(t)
        self.fact(n >= 0)
        return WL(n, lambda i: El(ONEL(t, zi(i))), lambda lo, hi, s: ONG(t, lo, hi, s), 'tuple')

    def o_getitem(self, I, o, i):
        if isinstance(o, FL) and not isinstance(o, (WL, AL)) or not isinstance(o, (WL, AL)) and isinstance(o, FL):
            return od.ODomain.o_getitem(self, I, o, i)
        if isinstance(o, WL) and isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('slice step')
            n = zi(o.n)
            lo, hi = z3.simplify(self.bound(i.start, n, 0)), z3.simplify(self.bound(i.stop, n, n))
            if not self.entails(lo <= hi):
                hi = z3.If(hi > lo, hi, lo)
            return self.cut(o, lo, hi)
        if isinstance(o, AL) and isinstance(i, slice):
            raise Unsupported('slice of a list of summands')
        return od.ODomain.o_getitem(self, I, o, i)

    def cut(self, o, lo, hi):
        o.touch(lo)
        o.touch(hi)
        get, seg = o.get, o.seg
        return WL(z3.simplify(hi - lo), lambda j: get(z3.simplify(lo + zi(j))),
                  lambda a, b, s: seg(z3.simplify(lo + a), z3.simplify(lo + b), s), o.kind, None, lambda p: o.touch(z3.simplify(lo + p)))

    def concat(self, x, y):
        if not (isinstance(x, WL) or isinstance(y, WL)):
            return od.ODomain.concat(self, x, y)
        x, y = (z if isinstance(z, WL) else as_wl([z.get(k) for k in range(z3.simplify(zi(z.n)).as_long())]) for z in (x, y))
        if z3.is_int_value(z3.simplify(zi(y.n))) and z3.simplify(zi(y.n)).as_long() == 0:
            return x
        r = od.ODomain.concat(self, x, y)
        n = zi(x.n)
        xs, ys, xw, yw = x.seg, y.seg, x.whole, y.whole

        def seg(lo, hi, s):
            return z3.If(hi <= n, xs(lo, hi, s), z3.If(lo >= n, ys(lo - n, hi - n, s), xs(lo, n, ys(z3.IntVal(0), hi - n, s))))
        return WL(r.n, r.get, seg, x.kind, lambda s: xw(yw(s)))

    def fl_method(self, I, o, name, args, kwargs):
        if isinstance(o, AL):
            if name == 'append':
                v = args[0]
                old, n = o.get, zi(o.n)
                self.ctx.set_attr(o, 'get', lambda j: vite(z3.simplify(zi(j) == n), v if isinstance(v, RV) else RV(rv(v)), old(j)))
                self.ctx.set_attr(o, 'tot', o.tot + rv(v))
                self.ctx.set_attr(o, 'n', z3.simplify(n + 1))
                return None
            raise Unsupported('method %s of a list of summands' % name)
        if not isinstance(o, WL):
            return od.ODomain.fl_method(self, I, o, name, args, kwargs)
        n = zi(o.n)
        ret = None
        zero = z3.IntVal(0)
        if o.kind == 'list' and name == 'insert':
            p = zi(args[0])
            if not self.entails(z3.And(p >= 0, p <= n)):
                raise Unsupported('insert position')
            new = self.concat(self.concat(self.cut(o, zero, p), as_wl([args[1]])), self.cut(o, p, n))
            old, v = o.get, args[1]
            new.get = lambda j: vite(z3.simplify(zi(j) < p), old(j), vite(z3.simplify(zi(j) == p), v, old(z3.simplify(zi(j) - 1))))
        elif o.kind == 'list' and name == 'append':
            new = self.concat(self.copy(o), as_wl([args[0]]))
        elif o.kind == 'list' and name == 'extend':
            new = self.concat(self.copy(o), as_wl(args[0]))
        elif o.kind == 'list' and name == 'pop':
            p = zi(args[0]) if args else n - 1
            if args and isinstance(args[0], int) and args[0] < 0:
                p = n + args[0]
            if not self.ctx.branch(z3.And(p >= 0, p < n), 'pop in range'):
                raise PyRaise(IndexError, 'pop')
            ret = o.get(p)
            new = self.concat(self.cut(o, zero, z3.simplify(p)), self.cut(o, z3.simplify(p + 1), n))
        elif name == 'copy':
            return self.copy(o)
        else:
            raise Unsupported('list method %s' % name)
        for k in ('n', 'get', 'seg', '_whole', 'touch'):
            self.ctx.set_attr(o, k, getattr(new, k))
        return ret

    def copy(self, o, kind=None):
        if isinstance(o, AL):
            return AL(o.n, o.get, o.tot, kind or o.kind)
        return WL(o.n, o.get, o.seg, kind or o.kind, o._whole, o.touch)

    def fl_binop(self, I, op, a, b, inplace):
        if op is ast.Add and inplace and isinstance(a, WL) and a.kind == 'list':
            self.fl_method(I, a, 'extend', [b], {})
            return a
        if op is ast.Add and (isinstance(a, WL) or isinstance(b, WL)):
            ka, kb = (x.kind if isinstance(x, FL) else type(x).__name__ for x in (a, b))
            if ka != kb:
                raise PyRaise(TypeError, 'can only concatenate')
            return self.concat(as_wl(a), as_wl(b))
        return od.ODomain.fl_binop(self, I, op, a, b, inplace)

    def fmap(self, I, it, body, kind='list'):
        r = od.ODomain.fmap(self, I, it, body, kind)
        if not isinstance(it, WL):
            return r
        j = z3.Int('shape!')
        e = r.get(j)
        if isinstance(e, El) or isinstance(e, tuple) and any(isinstance(x, El) for x in e):
            n = zi(it.n)
            k = self.fresh('k')
            with self.scope(z3.And(k >= 0, k < n)):
                x, y = el_of(it.get(k)).t, el_of(r.get(k)).t
                if not x.eq(y):
                    s = z3.Const(self.ctx.fresh('s'), M)
                    self.prove('each operand keeps its value', ACT(y, s) == ACT(x, s))
            return WL(r.n, r.get, it.seg, kind, it.whole, it.touch)
        if isinstance(e, (WL, list, tuple)):
            r.source = it
        return r

    def filtered(self, I, e, g, env, it):
        if not isinstance(it, WL):
            raise Unsupported('filtered comprehension')

        def run(what):
            def body(x):
                sub = Env({}, env, env.globs)
                I.assign(g.target, x, sub)
                return what(sub)
            return body

        def cond(sub):
            for c in g.ifs:
                if not I.truth(I.eval(c, sub)):
                    return False
            return True
        keep = od.ODomain.fmap(self, I, it, run(cond))
        out = self.fmap(I, it, run(lambda sub: I.eval(e.elt, sub)))
        if not isinstance(out, WL):
            raise Unsupported('filtered list of something else')
        kf = lambda j: (lambda v: v.t if isinstance(v, SBool) else z3.BoolVal(bool(v)))(keep.get(j))
        n = zi(it.n)
        k = self.fresh('dropped')
        s = z3.Const(self.ctx.fresh('s'), M)
        with self.scope(z3.And(k >= 0, k < n, z3.Not(kf(k)))):
            self.prove('only operands without effect are dropped', ACT(el_of(it.get(k)).t, s) == s)
        # the kept ones, in order
        p = self.fresh_fn('kept', INT, INT)
        r = self.base('kept', kind='list', whole=out, elem=lambda j: el_of(out.get(p(zi(j)))).t)
        rn = zi(r.n)
        self.fact(rn <= n)
        for j in (z3.IntVal(0), z3.IntVal(1)):
            self.fact(z3.Implies(j < rn, z3.And(p(j) >= 0, p(j) < n, kf(p(j)))))
            self.ident.append((el_of(it.get(j)).t, z3.And(rn == 0, j < n)))
        return r

    # ------------------------------------------------ arithmetic, maps
    def arith(self, I, op, a, b):
        if op is ast.Mult and isinstance(a, El) and isinstance(b, El) and b.t.eq(ONE):
            t = TIMES_ONE(a.t)
            return El(t)
        x, y = rv(a), rv(b)
        if op is ast.Mult:
            return RV(x * y)
        if op is ast.Add:
            return RV(x + y)
        if op is ast.Sub:
            return RV(x - y)
        raise Unsupported('operation on summands')

    def map_entry(self, m, x):
        k = x.t.get_id()
        if k not in m.memo:
            m.memo[k] = (z3.Bool(self.ctx.fresh('present')), z3.Real(self.ctx.fresh('coeff')), x.t)
        return m.memo[k]

    def map_has(self, m, x):
        return SBool(self.map_entry(m, x)[0])

    def map_get(self, m, x):
        b, c, _ = self.map_entry(m, x)
        if not self.ctx.branch(b, 'key present'):
            raise PyRaise(KeyError, 'term')
        return RV(c)

    def map_set(self, m, x, v):
        b, c, _ = self.map_entry(m, x)
        self.ctx.set_attr(m, 'tot', m.tot + (rv(v) - z3.If(b, c, z3.RealVal(0))) * rv(x))
        self.ctx.set_attr(m, 'memo', {x.t.get_id(): (z3.BoolVal(True), rv(v), x.t)})

    def items(self, m):
        n = self.fresh('n_items')
        self.fact(n >= 0)
        t = self.fresh_fn('item_term', INT, V)
        c = self.fresh_fn('item_coeff', INT, REAL)
        ps = self.fresh_fn('item_sum', INT, REAL)
        self.fact(z3.And(ps(z3.IntVal(0)) == 0, ps(n) == m.tot))
        k = z3.Int('ik!')
        r = FL(n, lambda j: (El(t(zi(j))), RV(c(zi(j)))), 'list')
        r.ps = lambda q: (self.ctx.assume(z3.Implies(z3.And(q > 0, q <= n), ps(q) == ps(q - 1) + c(q - 1) * PHI(t(q - 1)))), ps(q))[1]
        return r

    # ------------------------------------------------ protocol
    def getattr(self, I, o, name):
        if isinstance(o, ClsV):
            return self.cls_attr(I, o, name)
        if isinstance(o, (El, RV)):
            return self.el_attr(I, o, name)
        if isinstance(o, (CMap, RuleTable)):
            return BoundMethod(o, name)
        if isinstance(o, Match) and name == 'reason':
            return ''
        if isinstance(o, Proto) and name in ('args', 'kwargs'):
            return getattr(o, name)
        if isinstance(o, KW):
            raise Unsupported('keyword arguments')
        return od.ODomain.getattr(self, I, o, name)

    def cls_attr(self, I, o, name):
        if name == 'order_key':
            return key_of
        if name == '_neutral_element':
            return El(CN)
        if name == '_one':
            return El(ONE)
        if name == '_zero':
            return RV(z3.RealVal(0))
        if name in ('_rules', '_binary_rules'):
            return RuleTable(name)
        if name == 'simplifications':
            return [AP.assoc]
        if name == '__name__':
            return 'cls'
        raise Unsupported('class attribute %s' % name)

    def el_attr(self, I, o, name):
        if isinstance(o, El):
            if name in ('operands', 'args') and self.entails(IS(o.t)):
                return self.operands(o)
            if name == 'cdim':
                return SInt(CD(o.t))
        if name == 'is_zero':
            b = z3.Bool(self.ctx.fresh('is_zero'))
            self.ctx.assume(z3.Implies(b, rv(o) == 0))
            return SBool(b)
        raise Unsupported('attribute %s of an operand' % name)

    def truth(self, I, v):
        if isinstance(v, Match):
            return self.ctx.branch(v.ok, 'matches')
        if isinstance(v, (El, Key, RV)):
            raise Unsupported('truth of %r' % (v,))
        return od.ODomain.truth(self, I, v)

    def as_kwargs(self, I, d):
        if isinstance(d, Match):
            return {'*match': d}
        return od.ODomain.as_kwargs(self, I, d)

    def call_value(self, I, f, args, kwargs):
        if isinstance(f, Repl) and set(kwargs) == {'*match'} and not args:
            if self.ctx.choose(2, 'rule does not apply'):
                raise PyRaise(EXC.CannotSimplify, '')
            m = kwargs['*match']
            r = El(self.fresh('replacement', V))
            self.wholes.append((r.t, as_wl(m.proto.args).whole, m.ok))
            return r
        return od.ODomain.call_value(self, I, f, args, kwargs)

    def call_method(self, I, m, args, kwargs):
        if isinstance(m.obj, RuleTable) and m.name == 'items':
            n = self.fresh('n_rules')
            self.fact(n >= 0)
            return FL(n, lambda j: ('rule', (Pat(), Repl())), 'list')
        if isinstance(m.obj, RuleTable) and m.name == 'values':
            n = self.fresh('n_rules')
            self.fact(n >= 0)
            return FL(n, lambda j: (Pat(), Repl()), 'list')
        if isinstance(m.obj, CMap):
            if m.name == 'items':
                return self.items(m.obj)
            if m.name == 'get':
                b, c, _ = self.map_entry(m.obj, args[0])
                d = args[1] if len(args) > 1 else None
                return RV(c) if self.ctx.branch(b, 'key present') else d
            raise Unsupported('dictionary method %s' % m.name)
        return od.ODomain.call_method(self, I, m, args, kwargs)

    def isinstance(self, I, o, c):
        if isinstance(o, El) and isinstance(c, ClsV):
            return SBool(IS(o.t))
        return od.ODomain.isinstance(self, I, o, c)

    def pre_call(self, I, f, args, kwargs):
        if f in (tuple, list) and len(args) == 1 and isinstance(args[0], (WL, AL)):
            return self.copy(args[0], f.__name__)
        if f is sorted and args and isinstance(args[0], WL):
            r = self.base('sorted', args[0].n, kind='list', whole=args[0] if self.all_commute else None)
            return r
        if isinstance(f, RuleTable):
            raise Unsupported('rule table')
        return od.ODomain.pre_call(self, I, f, args, kwargs)

    def compare(self, I, name, a, b):
        if isinstance(a, Key) and isinstance(b, Key) and name in '<>':
            x, y = (a.t, b.t) if name == '<' else (b.t, a.t)
            f = LT(x, y)
            return SBool(f)
        return od.ODomain.compare(self, I, name, a, b)

    def equal(self, I, a, b):
        if isinstance(a, El) and isinstance(b, El):
            f = EQ(a.t, b.t)
            return SBool(f)
        if isinstance(a, (RV, El)) or isinstance(b, (RV, El)):
            f = z3.Bool(self.ctx.fresh('equal'))
            self.ctx.assume(z3.Implies(f, rv(a) == rv(b)))
            return SBool(f)
        return od.ODomain.equal(self, I, a, b)

    def havoc(self, I, env, sp, names, mut):
        for nm in sorted(mut):
            try:
                old = I.lookup(nm, env)
            except PyRaise:
                continue
            if isinstance(old, (WL, AL)) or is_empty(old) or isinstance(old, list) or self.summands and isinstance(old, FL):
                I.bind(nm, self.like(nm, old), env)
                mut = mut - {nm}
        od.ODomain.havoc(self, I, env, sp, names, mut)

    def like(self, nm, old):
        if isinstance(old, WL) or is_empty(old):
            return self.al(nm) if self.summands else self.base(nm, kind='list', keyed=self.keyed)
        if isinstance(old, (dict, CMap)) and not (isinstance(old, dict) and len(old)):
            return CMap(z3.Real(self.ctx.fresh('total')))
        if isinstance(old, (RV, El)) or old is SCA.Zero or old is SCA.One or type(old) is int and nm in ('coeff', 'term'):
            return RV(z3.Real(self.ctx.fresh(nm)))
        if isinstance(old, AL) or self.summands and isinstance(old, (list, FL)):
            return self.al(nm)
        if isinstance(old, Key):
            return Key(self.fresh(nm, V))
        return od.ODomain.like(self, nm, old)

    def al(self, nm='summands'):
        n = self.fresh('n_' + nm)
        f = self.fresh_fn('v_' + nm, INT, REAL)
        tot = z3.Real(self.ctx.fresh('sum_' + nm))
        self.fact(z3.And(n >= 0, z3.Implies(n == 0, tot == 0), z3.Implies(n == 1, tot == f(z3.IntVal(0)))))
        return AL(n, lambda j: RV(f(zi(j))), tot, 'list')

    # ------------------------------------------------ proof
    @contextlib.contextmanager
    def scope(self, *assume):
        m = self.ctx.mark()
        old = [(b, dict(b['pts']), dict(b['els'])) for b in self.bases.values()]
        for f in assume:
            self.ctx.assume(f)
        try:
            yield
        finally:
            self.ctx.undo(m)
            for b, pts, els in old:
                b['pts'], b['els'] = pts, els

    def prove(self, name, f, sub=None):
        for rounds, limit in ((2, 60), (3, 120), (4, 250), (4, 400)):
            m = self.ctx.mark()
            self.saturate(f, rounds, limit)
            try:
                ok = od.ODomain.prove(self, name, f, sub)
            finally:
                self.ctx.undo(m)
            if ok or limit == 400:
                return ok
            self.ctx.obligations.pop()

    def saturate(self, goal, rounds, limit):
        """instances of the laws of act and of the folds at the terms that occur"""
        done, seen = set(), set()
        terms, eqs, lts, ids, nests, sames = [], {}, {}, {}, {}, {}

        def collect(e):
            todo = [e]
            while todo:
                x = todo.pop()
                if x.get_id() in seen or z3.is_quantifier(x):
                    continue
                seen.add(x.get_id())
                if x.sort() == M:
                    terms.append(x)
                elif z3.is_app(x):
                    nm = x.decl().name()
                    tab = {'equal': eqs, 'key_less': lts, 'circuit_identity': ids, 'is_instance_of_cls': nests, 'multiple_of_one': sames}.get(nm)
                    if tab is not None:
                        tab[x.get_id()] = x
                todo.extend(x.children())
        for a in self.ctx.solver.assertions():
            collect(a)
        collect(goal)

        def add(f):
            if f.get_id() in done:
                return
            done.add(f.get_id())
            self.held.append(f)
            self.ctx.assume(f)
            collect(f)
        for _ in range(rounds):
            for t in list(terms[:limit]):
                if z3.is_app(t) and t.decl().name() == 'act':
                    x, s = t.children()
                    for a, c in self.ident + [(i, z3.BoolVal(True)) for i in ids.values()]:
                        add(z3.Implies(c, t == s) if a.eq(x) else z3.Implies(z3.And(c, x == a), t == s))
                    for e in list(eqs.values()):
                        a, b = e.children()
                        if x.eq(a) or x.eq(b):
                            add(z3.Implies(e, ACT(a, s) == ACT(b, s)))
                    for e in list(sames.values()):
                        a = e.arg(0)
                        if x.eq(a) or x.eq(e):
                            add(ACT(a, s) == ACT(e, s))
                    for e in list(nests.values()):
                        a = e.arg(0)
                        if x.eq(a):
                            add(z3.Implies(e, t == ONG(a, z3.IntVal(0), ONLEN(a), s)))
                    for r, w, c in self.wholes:
                        if x.eq(r):
                            add(z3.Implies(c, t == w(s)))
                        elif z3.is_app(w(S0)) and w(S0).decl().name() == 'act':
                            e = w(S0)            # the last factor acts first
                            while e.arg(1).decl().name() == 'act':
                                e = e.arg(1)
                            if e.arg(1).eq(S0) and x.eq(e.arg(0)):
                                add(z3.Implies(c, ACT(r, s) == w(s)))
                    for e in list(lts.values()):
                        a, b = e.children()
                        if x.eq(a):
                            add(z3.Implies(e, ACT(b, t) == ACT(a, ACT(b, s))))
                        if x.eq(b):
                            add(z3.Implies(e, ACT(a, t) == ACT(b, ACT(a, s))))
                elif z3.is_app(t) and t.decl().name() in self.bases:
                    b = self.bases[t.decl().name()]
                    lo, hi, s = t.children()
                    G = b['G']
                    add(z3.Implies(lo >= hi, t == s))
                    for c in self.bases.values():
                        if c['whole'] is not None and c['whole'].whole(s).eq(t):
                            add(c['G'](z3.IntVal(0), c['n'], s) == t)
                    if b['whole'] is not None:
                        add(z3.Implies(z3.And(lo == 0, hi == b['n']), t == b['whole'].whole(s)))
                    for p in list(b['pts'].values()):
                        if not p.eq(lo) and not p.eq(hi):
                            add(z3.Implies(z3.And(lo <= p, p <= hi), t == G(lo, p, G(p, hi, s))))
                    for k in list(b['els'].values()):
                        add(z3.Implies(z3.And(lo <= k, k < hi), t == G(lo, k, ACT(b['x'](k), G(z3.simplify(k + 1), hi, s)))))


class RuleTable(Sym):
    """the rules of the class: {name: (pattern, replacement)}"""

    def __init__(self, name):
        self.name = name


class Pat(Sym):
    pass


class Repl(Sym):
    pass


class Proto(Sym):
    def __init__(self, args, kwargs):
        self.args, self.kwargs = args, kwargs


class Match(Sym):
    """the result of matching: `ok` when the pattern matches"""

    def __init__(self, proto, ok):
        self.proto, self.ok = proto, ok


def key_of(*a, **kw):
    raise NotImplementedError


def c_key(D, I, a, kw):
    return Key(a[-1].t)


def c_match(D, I, a, kw):
    pat, expr = a[:2] if len(a) > 1 else (a[0], kw['expr_or_pattern'])
    if not isinstance(pat, Pat) or not isinstance(expr, Proto):
        raise Unsupported('match of %r' % (expr,))
    return Match(expr, z3.Bool(D.ctx.fresh('matches')))


def c_cid(D, I, a, kw):
    t = CID(zi(a[-1]))
    return El(t)


def c_sum(D, I, a, kw):
    """sum of a list of tuples, starting from (): the concatenation"""
    x = a[0]
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    src = getattr(x, 'source', None)
    if src is None or start != ():
        return NotImplemented
    n = zi(x.n)
    k = D.fresh('k')
    s = z3.Const(D.ctx.fresh('s'), M)
    with D.scope(z3.And(k >= 0, k < n)):
        D.prove('each part stands for the operand it replaces', as_wl(x.get(k)).whole(s) == ACT(el_of(src.get(k)).t, s))
    return D.base('flat', kind='tuple', whole=src)


def setup(ctx, cls=SDomain, loops=None, icls=SInterp):
    D = cls(ctx)
    I = icls(ctx, D)
    D.contracts[key_of] = c_key
    for (f, k), sp in (loops or {}).items():
        ns = od.loops_of(f)
        if k < len(ns):
            D.loops[id(ns[k])] = sp
    return D, I


def find(st, pred):
    """the variable of the function whose value satisfies pred"""
    env = st.env
    while env is not None:
        for v in env.names.values():
            if pred(v):
                return v
        if hasattr(env, 'func_name'):
            break
        env = env.parent
    raise Unsupported('loop variables %s' % {k: type(v).__name__ for k, v in st.env.names.items()})


def result_fold(D, r, kw, s):
    if isinstance(r, tuple) and len(r) == 2 and r[1] is kw:
        return as_wl(r[0]).whole(s)
    if isinstance(r, El):
        return ACT(r.t, s)
    if r is CIR.CircuitZero:
        return s
    raise Unsupported('result %r' % (r,))


def keeps_fold(f, loops=None, commute=False, prep=None):
    """f(cls, operands, kwargs) keeps the product of the operands"""
    def t(ctx):
        D, I = setup(ctx, loops=loops)
        D.all_commute = commute
        D.ops = ops = D.base('ops', kind='list' if ctx.choose(2, 'list or tuple') else 'tuple')
        kw = KW()
        if prep:
            prep(D)
        r = I.call_python(f, [ClsV(), ops, kw], {})
        D.prove('the product of the operands is kept', result_fold(D, r, kw, S0) == ops.whole(S0))
    return t


# ------------------------------------------------------------ orderby

def is_keyed(v):
    return isinstance(v, WL) and v.kind == 'list' or is_empty(v)


def is_empty(v):
    return isinstance(v, list) and not v or type(v) is FL and z3.is_int_value(z3.simplify(zi(v.n))) and z3.simplify(zi(v.n)).as_long() == 0


def inv_outer(st):
    D = st.D
    L = as_wl(find(st, lambda v: is_keyed(v) and v is not D.ops))
    D.gk = st.k
    rest = D.ops.seg(z3.simplify(st.k), zi(D.ops.n), S0)
    D.touch(D.bases[next(iter(D.bases))], st.k)
    yield 'the operands so far, ordered, and the remaining ones have the product of all', L.whole(rest) == D.ops.whole(S0)
    if isinstance(st.D.ops, WL) and zi(L.n) is not None and not z3.is_int_value(z3.simplify(zi(L.n))):
        j = D.fresh('j')
        e = L.get(j)
        yield 'each operand is stored with its own key', z3.Implies(z3.And(j >= 0, j < zi(L.n)), e[0].t == e[1].t)


def inv_inner(st):
    D = st.D
    L = as_wl(find(st, lambda v: is_keyed(v) and v is not D.ops))
    pos = zi(find(st, lambda v: isinstance(v, SInt) or type(v) is int))
    op = find(st, lambda v: isinstance(v, El)).t
    n = zi(L.n)
    s = D.ops.seg(z3.simplify(D.gk + 1), zi(D.ops.n), S0)
    for p in (pos, pos + 1):
        L.touch(z3.simplify(p))
    yield 'position in range', z3.And(pos >= 0, pos <= n)
    yield 'the new operand commutes with all operands behind the position', \
        L.whole(ACT(op, s)) == L.seg(z3.IntVal(0), pos, ACT(op, L.seg(pos, n, s)))


ORDER_LOOPS = {(AP.orderby, 0): Loop(inv_outer), (AP.orderby, 1): Loop(inv_inner)}


# ------------------------------------------------------------ rules

class Fold:
    def __init__(self, whole):
        self.whole = whole


ANY = Loop(lambda st: ())
RULE_LOOPS = {(AP.match_replace, 0): ANY, (AP._get_binary_replacement, 0): ANY}


def c_get_binary(D, I, a, kw):
    """None, or the product of both"""
    x, y = a[0], a[1]
    if D.ctx.choose(2, 'no rule'):
        return None
    r = El(D.fresh('replacement', V))
    D.wholes.append((r.t, lambda s: ACT(el_of(x).t, ACT(el_of(y).t, s)), z3.BoolVal(True)))
    return r


def c_combine(D, I, a, kw):
    x, y = as_wl(a[-2]), as_wl(a[-1])
    return D.base('combined', kind='list', whole=Fold(lambda s: x.whole(y.whole(s))))


def c_reduce(D, I, a, kw):
    return D.base('reduced', kind='list', whole=D.copy(as_wl(a[-1])))


def t_get_binary(ctx):
    D, I = setup(ctx, loops=RULE_LOOPS)
    x, y = El(D.fresh('first', V)), El(D.fresh('second', V))
    r = I.call_python(AP._get_binary_replacement, [x, y, ClsV()], {})
    if r is None:
        D.prove('no replacement', z3.BoolVal(True))
    else:
        D.prove('the replacement is the product of both', ACT(r.t, S0) == ACT(x.t, ACT(y.t, S0)))


def t_combine(ctx):
    D, I = setup(ctx)
    D.contracts[AP._get_binary_replacement] = c_get_binary
    D.contracts[AP._match_replace_binary_combine] = c_combine
    x, y = D.base('a', kind='list'), D.base('b', kind='list')
    r = I.call_python(AP._match_replace_binary_combine, [ClsV(), x, y], {})
    D.prove('the product of both lists is kept', as_wl(r).whole(S0) == x.whole(y.whole(S0)))


def t_reduce(ctx):
    D, I = setup(ctx)
    D.contracts[AP._match_replace_binary_combine] = c_combine
    D.contracts[AP._match_replace_binary] = c_reduce
    x = D.base('a', kind='list')
    r = I.call_python(AP._match_replace_binary, [ClsV(), x], {})
    D.prove('the product of the list is kept', as_wl(r).whole(S0) == x.whole(S0))


def with_reduce(D):
    D.contracts[AP._match_replace_binary] = c_reduce


# ------------------------------------------------------------ sums with coefficients

IS_ST = z3.Function('is_scalar_times', V, BOOL)
COEFF = z3.Function('coeff', V, REAL)
TERM = z3.Function('term', V, V)
IS_SV = z3.Function('is_scalar_value', V, BOOL)
IS_RAW = z3.Function('is_plain_number', V, BOOL)
REST = z3.Function('rest_of_product', V, INT, REAL)
IS_TIMES = z3.Function('is_scalar_product', V, BOOL)


class CDomain(SDomain):
    """summands: a class, its scalar multiples, scalar products and numbers"""

    def isinstance(self, I, o, c):
        if isinstance(o, El):
            if c is AQA.ScalarTimesQuantumExpression:
                self.ctx.assume(z3.Implies(IS_ST(o.t), PHI(o.t) == COEFF(o.t) * PHI(TERM(o.t))))
                return SBool(IS_ST(o.t))
            if c is SCA.ScalarValue or c in SCA.Scalar._val_types:
                return SBool(IS_SV(o.t) if c is SCA.ScalarValue else IS_RAW(o.t))
            if c is SCA.ScalarTimes:
                self.ctx.assume(z3.Not(z3.And(IS_TIMES(o.t), z3.Or(IS_SV(o.t), IS_RAW(o.t)))))
                return SBool(IS_TIMES(o.t))
        return SDomain.isinstance(self, I, o, c)

    def el_attr(self, I, o, name):
        if isinstance(o, El) and name in ('coeff', 'term') and self.entails(IS_ST(o.t)):
            return RV(COEFF(o.t)) if name == 'coeff' else El(TERM(o.t))
        if isinstance(o, El) and name in ('operands', 'args') and self.entails(IS_TIMES(o.t)):
            n = ONLEN(o.t)
            r = lambda i: REST(o.t, i)
            self.fact(z3.And(n >= 2, r(z3.IntVal(0)) == PHI(o.t), r(n) == 1))

            def get(i):
                i = z3.simplify(zi(i))
                e = ONEL(o.t, i)
                self.ctx.assume(z3.Implies(z3.And(i >= 0, i < n), r(i) == PHI(e) * r(z3.simplify(i + 1))))
                return El(e)
            f = FL(n, get, 'tuple')
            self.product = f, r
            return f
        return SDomain.el_attr(self, I, o, name)

    def map_entry(self, m, x):
        if isinstance(x, RV):      # a product put together by the code: known by its value
            t = self.fresh('term', V)
            self.ctx.assume(PHI(t) == x.t)
            self.named = getattr(self, 'named', {})
            t = self.named.setdefault(x.t.get_id(), t)
            x = El(t)
        return SDomain.map_entry(self, m, x)

    def arith(self, I, op, a, b):
        if isinstance(a, El) and isinstance(b, El) and op is ast.Mult:
            return RV(rv(a) * rv(b))
        return SDomain.arith(self, I, op, a, b)

    def map_set(self, m, x, v):
        b, c, t = self.map_entry(m, x)
        self.ctx.set_attr(m, 'tot', m.tot + (rv(v) - z3.If(b, c, z3.RealVal(0))) * rv(x))
        self.ctx.set_attr(m, 'memo', {t.get_id(): (z3.BoolVal(True), rv(v), t)})

    def map_as(self, v):
        if isinstance(v, CMap):
            return v.tot
        if isinstance(v, dict) and not v:
            return z3.RealVal(0)
        raise Unsupported('dictionary')

    def setitem_native(self, o, i, v):
        raise Unsupported('dictionary')


def summands(D, n=None):
    n = D.fresh('n_ops')
    D.fact(n >= 0)
    x = D.fresh_fn('x_ops', INT, V)
    ps = D.fresh_fn('sum_ops', INT, REAL)
    D.fact(ps(z3.IntVal(0)) == 0)
    ops = FL(n, lambda i: El(x(z3.simplify(zi(i)))), 'tuple')

    def upto(k):
        k = z3.simplify(zi(k))
        D.ctx.assume(z3.Implies(z3.And(k > 0, k <= n), ps(k) == ps(z3.simplify(k - 1)) + PHI(x(z3.simplify(k - 1)))))
        return ps(k)
    ops.upto = upto
    return ops


def is_map(v):
    return isinstance(v, CMap) or isinstance(v, dict) and not v


def inv_collect(st):
    D = st.D
    m = find(st, is_map)
    tot = D.map_as(m)
    try:
        tot = tot + rv(st['a_0'])
    except (KeyError, PyRaise, Unsupported):
        pass
    yield 'coefficients times terms sum up to the operands so far', tot == D.ops.upto(st.k)


def inv_product(st):
    D = st.D
    f, r = D.product
    yield 'the factors so far and the remaining ones', rv(st['term']) * r(z3.simplify(st.k + 2)) == r(z3.IntVal(1))


def inv_emit(st):
    D = st.D
    L = find(st, lambda v: isinstance(v, AL) or type(v) is FL and v.kind == 'list' and z3.is_int_value(z3.simplify(zi(v.n))) or isinstance(v, list))
    tot = L.tot if isinstance(L, AL) else z3.Sum([rv(to_fl(L).get(i)) for i in range(z3.simplify(zi(to_fl(L).n)).as_long())] + [z3.RealVal(0)])
    if D.ctx is not None and getattr(D, 'tot0', None) is None:
        D.tot0 = tot
    yield 'the summands so far', tot == D.tot0 + st.it.ps(z3.simplify(st.k))


class CInterp(SInterp):
    def call(self, f, args, kwargs):
        if f in (OrderedDict, dict) and not args and not kwargs:
            return CMap(z3.RealVal(0))
        return super().call(f, args, kwargs)

    def e_Dict(self, e, env):
        return super().e_Dict(e, env) if e.keys else CMap(z3.RealVal(0))


def c_collect(f, loops):
    def t(ctx):
        D, I = setup(ctx, CDomain, loops, CInterp)
        D.summands = True
        D.ops = ops = summands(D)
        kw = KW()
        r = I.call_python(f, [ClsV(), ops, kw], {})
        if isinstance(r, tuple) and len(r) == 2 and r[1] is kw:
            v = r[0].tot if isinstance(r[0], AL) else sum(rv(x) for x in r[0])
        else:
            v = rv(r)
        D.prove('the sum of the operands is kept', v == ops.upto(ops.n))
    return t


# ------------------------------------------------------------ conversions of operands

SV = z3.Function('scalar_value_of', V, V)


def inv_convert(st):
    D = st.D
    L = as_wl(find(st, lambda v: is_keyed(v) and v is not D.ops))
    D.touch(D.opsb, st.k)
    yield 'the converted operands and the remaining ones', L.whole(D.ops.seg(z3.simplify(st.k), zi(D.ops.n), S0)) == D.ops.whole(S0)
    yield 'as many as there are operands so far', zi(L.n) == st.k


class VDomain(SDomain):
    def isinstance(self, I, o, c):
        if isinstance(o, El) and c is SCA.Scalar:
            return SBool(z3.Function('is_scalar', V, BOOL)(o.t))
        return SDomain.isinstance(self, I, o, c)


def c_scalar_value(D, I, a, kw):
    t = TIMES_ONE(a[-1].t)
    return El(t)


def t_convert(f, loops):
    def t(ctx):
        D, I = setup(ctx, VDomain, loops)
        D.contracts[unwrap(SCA.is_scalar)] = lambda D, I, a, kw: SBool(z3.Function('is_scalar', V, BOOL)(a[0].t))
        D.classes[SCA.ScalarValue] = c_scalar_value
        D.contracts[unwrap(SCA.ScalarValue.create.__func__)] = c_scalar_value
        D.ops = ops = D.base('ops', kind='tuple')
        D.opsb = next(iter(D.bases.values()))
        kw = KW()
        r = I.call_python(f, [ClsV(), ops, kw], {})
        D.prove('the product of the operands is kept', result_fold(D, r, kw, S0) == ops.whole(S0))
        if isinstance(r, tuple):
            D.prove('one operand for each', zi(as_wl(r[0]).n) == zi(ops.n))
    return t


# ------------------------------------------------------------ products with a zero

ZEROV = z3.Const('zero_element', V)
ZM = z3.Const('zero', M)


class ZDomain(SDomain):
    """the zero element of the class makes the product zero"""

    def zero(self, x):
        return x is STA.ZeroKet or x is SOP.ZeroSuperOperator

    def equal(self, I, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, El) and self.zero(y):
                return SBool(EQ(x.t, ZEROV))
        return SDomain.equal(self, I, a, b)

    def keep_star(self, v):
        return isinstance(v, FL)

    def super_attr(self, I, sp, name):
        if name == 'create':
            return lambda *a, **k: None
        return SDomain.super_attr(self, I, sp, name)


class ZInterp(SInterp):
    def _bind(self, node, args, kwargs, defaults, kwdefaults, name):
        if node.args.vararg is not None and len(args) == 2 and isinstance(args[1], WL):
            return {node.args.args[0].arg: args[0], node.args.vararg.arg: args[1]}
        return super()._bind(node, args, kwargs, defaults, kwdefaults, name)

    def call(self, f, args, kwargs):
        if getattr(f, '__name__', '') == '<lambda>' and len(args) == 1 and isinstance(getattr(args[0], 'seq', args[0]), WL):
            return ('super', getattr(args[0], 'seq', args[0]))
        return super().call(f, args, kwargs)


def t_zero(cls):
    f = cls.create.__func__

    def t(ctx):
        D, I = setup(ctx, ZDomain, None, ZInterp)
        ops = D.base('ops', kind='tuple')
        r = I.call_python(f, [cls, ops], {})
        if D.zero(r):
            j = z3.Int('j')
            D.prove('zero only if one of the operands is zero', z3.Exists([j], z3.And(j >= 0, j < zi(ops.n), EQ(ops.get(j).t, ZEROV))))
        elif isinstance(r, tuple) and r[0] == 'super':
            D.prove('the operands are passed on', z3.BoolVal(r[1] is ops))
        else:
            raise Unsupported('result %r' % (r,))
    return t


# ------------------------------------------------------------ dimensions

class CdDomain(SDomain):
    def make_set(self, I, v):
        if isinstance(v, FL):
            n = self.fresh('n_distinct')
            a, b = self.fresh('a'), self.fresh('b')
            i, j = z3.Int('i?'), z3.Int('j?')
            rng = lambda x: z3.And(x >= 0, x < zi(v.n))
            e = lambda x: zi(v.get(x))
            self.fact(z3.And(n >= 0, (n == 0) == (zi(v.n) <= 0), n <= zi(v.n)))
            self.fact(z3.Implies(n > 1, z3.And(rng(a), rng(b), e(a) != e(b))))
            self.fact(z3.Implies(n <= 1, z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j)), e(i) == e(j)))))
            r = od.FSet(lambda x: z3.BoolVal(True))
            r.size = n
            return r
        return SDomain.make_set(self, I, v)

    def length(self, I, o):
        if isinstance(o, od.FSet):
            return SInt(o.size)
        return SDomain.length(self, I, o)


def t_cdims(ctx):
    D, I = setup(ctx, CdDomain)
    ops = D.base('ops', kind='tuple')
    kw = KW()
    i, j = D.fresh('i'), D.fresh('j')
    n = zi(ops.n)
    x, y = ops.get(i).t, ops.get(j).t
    try:
        r = I.call_python(AP.check_cdims, [ClsV(), ops, kw], {})
    except PyRaise as e:
        if e.exc_type is not ValueError:
            raise
        a, b = z3.Int('a?'), z3.Int('b?')
        D.prove('an error only if two dimensions differ', z3.Exists([a, b], z3.And(a >= 0, a < n, b >= 0, b < n, CD(ops.get(a).t) != CD(ops.get(b).t))))
        return
    D.prove('all dimensions agree', z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n), CD(x) == CD(y)))
    D.prove('the operands are kept', z3.BoolVal(isinstance(r, tuple) and r[0] is ops and r[1] is kw))


# ------------------------------------------------------------ bras

KET_OF = z3.Function('ket_of', V, V)
IS_BRA = z3.Function('is_bra', V, BOOL)


class BDomain(SDomain):
    def isinstance(self, I, o, c):
        if isinstance(o, El) and c is STA.Bra:
            return SBool(IS_BRA(o.t))
        return SDomain.isinstance(self, I, o, c)

    def el_attr(self, I, o, name):
        if isinstance(o, El) and name == 'ket' and self.entails(IS_BRA(o.t)):
            return El(KET_OF(o.t))
        return SDomain.el_attr(self, I, o, name)

    def cls_attr(self, I, o, name):
        if name == 'create':
            return self.created
        return SDomain.cls_attr(self, I, o, name)

    def as_kwargs(self, I, d):
        return {'*kw': d} if isinstance(d, KW) else SDomain.as_kwargs(self, I, d)

    def keep_star(self, v):
        return isinstance(v, FL)

    def like(self, nm, old):
        return SDomain.like(self, nm, old)


def bra_made(*a, **kw):
    raise NotImplementedError


def t_accept_bras(ctx):
    got = {}

    def created(D, I, a, kw):
        got['kets'], got['kw'] = getattr(a[-1], 'seq', a[-1]), kw
        return El(D.fresh('created', V))

    def bra(D, I, a, kw):
        got['bra'] = a[-1]
        return El(D.fresh('bra', V))

    def cls_create():
        raise NotImplementedError

    def inv(st):
        L = as_wl(find(st, lambda v: is_keyed(v) and v is not st.D.ops))
        k, D = st.k, st.D
        j = D.skolem
        yield 'one ket for each bra so far', zi(L.n) == k
        e = L.get(j) if not z3.is_int_value(z3.simplify(zi(L.n))) else None
        yield 'the kets of the bras', z3.BoolVal(True) if not isinstance(e, El) else z3.Implies(z3.And(j >= 0, j < k), z3.And(IS_BRA(D.ops.get(j).t), e.t == KET_OF(D.ops.get(j).t)))
    f = AP.accept_bras
    D, I = setup(ctx, BDomain, {(f, 0): Loop(inv)})
    D.created = cls_create
    D.contracts[cls_create] = created
    D.contracts[unwrap(STA.Bra.create)] = bra
    D.ops = ops = D.base('ops', kind='tuple')
    D.skolem = D.fresh('j')
    kw = KW()
    r = I.call_python(f, [ClsV(), ops, kw], {})
    if isinstance(r, tuple):
        D.prove('unchanged', z3.BoolVal(r[0] is ops and r[1] is kw))
        return
    j = D.skolem
    L = as_wl(got['kets'])
    D.prove('the bra of the operation', z3.BoolVal(isinstance(got.get('bra'), El) and got['kw'].get('*kw') is kw))
    D.prove('on as many kets', zi(L.n) == zi(ops.n))
    D.prove('on the kets of all bras', z3.Implies(z3.And(j >= 0, j < zi(ops.n)), z3.And(IS_BRA(ops.get(j).t), L.get(j).t == KET_OF(ops.get(j).t))))


# ------------------------------------------------------------ delegation

class Has(Sym):
    pass


class DDomain(SDomain):
    def el_attr(self, I, o, name):
        if isinstance(o, El) and name == self.mtd:
            if not hasattr(self, 'has'):
                self.has = self.ctx.choose(2, 'operand has such a method')
            if not self.has:
                raise PyRaise(AttributeError, name)
            return BoundMethod(o, name)
        return SDomain.el_attr(self, I, o, name)

    def call_method(self, I, m, args, kwargs):
        if isinstance(m.obj, El) and m.name == self.mtd and not args:
            return El(z3.Function('called_' + self.mtd, V, V)(m.obj.t))
        return SDomain.call_method(self, I, m, args, kwargs)


def t_delegate(cls, mtd):
    def t(ctx):
        D, I = setup(ctx, DDomain)
        D.mtd = mtd
        fs = [f for f in cls.simplifications if getattr(f, '__name__', '') == '_delegate_to_method']
        if not fs:
            raise Unsupported('no delegation')
        x = El(D.fresh('x', V))
        kw = KW()
        ops = (x,)
        r = I.call_python(fs[0], [cls, ops, kw], {})
        if isinstance(r, tuple):
            D.prove('unchanged', z3.BoolVal(r[0] is ops and r[1] is kw))
        else:
            D.prove('the method of the operand', r.t == z3.Function('called_' + mtd, V, V)(x.t))
    return t


# ------------------------------------------------------------ implied spaces

class HInterp(SInterp):
    """spaces are made by the real constructor"""

    def call(self, f, args, kwargs):
        if isinstance(f, type) and issubclass(f, HSA.LocalSpace):
            return f(*args, **kwargs)
        return super().call(f, args, kwargs)


def t_implied(ctx):
    """integer and string values of the keys become spaces of that label, nothing else changes"""
    D, I = setup(ctx, SDomain, None, HInterp)
    kind = ctx.choose(5, 'kind of value')
    two = ctx.choose(2, 'another keyword first')
    space = HSA.LocalSpace('q', dimension=3)
    v = [0, 'name', space, HSA.LocalSpace('a') * HSA.LocalSpace('b'), True][kind]
    other = 7 if ctx.choose(2, 'other value') else 'x'
    kw = {'over': other, 'hs': v} if two else {'hs': v, 'over': other}
    f = next(f for f in OPA.LocalOperator.simplifications if f.__name__ == 'kwargs_to_local_space')
    args = (1, 'a')
    r = I.call_python(f, [OPA.LocalOperator, args, kw], {})
    want = dict(kw)
    if kind in (0, 1, 4):
        want['hs'] = OPA.LocalOperator._default_hs_cls(v)
    D.prove('the arguments are kept', z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and r[0] == args))
    got = dict(r[1])
    D.prove('the space is the local space with that label', z3.BoolVal(got == want))


# ------------------------------------------------------------ ordering keys

SPACE = z3.Function('space_of', V, z3.SetSort(INT))
COMMUTE = z3.Function('commute', V, V, BOOL)
PRE, POST = z3.Function('is_left_multiplication', V, BOOL), z3.Function('is_right_multiplication', V, BOOL)


class SpaceV(Sym):
    def __init__(self, t):
        self.t = t


class Ord(Sym):
    """an opaque ordering key"""


class KInterp(SInterp):
    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SpaceV) and y is HSA.TrivialSpace:
                return SBool(x.t == z3.EmptySet(INT))
        return super().is_(a, b)

    def e_BoolOp(self, e, env):
        return super().e_BoolOp(e, env)


class KDomain(SDomain):
    def getattr(self, I, o, name):
        if isinstance(o, El) and name == 'space':
            return SpaceV(SPACE(o.t))
        if isinstance(o, El) and name == '_order_key' or isinstance(o, SpaceV) and name == '_order_key':
            return Ord()
        if isinstance(o, SpaceV) and name in ('isdisjoint', 'intersect'):
            return BoundMethod(o, name)
        return SDomain.getattr(self, I, o, name)

    def call_method(self, I, m, args, kwargs):
        if isinstance(m.obj, SpaceV) and m.name == 'isdisjoint':
            return SBool(z3.SetIntersect(m.obj.t, args[0].t) == z3.EmptySet(INT))
        return SDomain.call_method(self, I, m, args, kwargs)

    def isinstance(self, I, o, c):
        if isinstance(o, El) and c in (SOP.SPre, SOP.SPost):
            return SBool((PRE if c is SOP.SPre else POST)(o.t))
        return SDomain.isinstance(self, I, o, c)

    def compare(self, I, name, a, b):
        if isinstance(a, Ord) and isinstance(b, Ord):
            return SBool(z3.Bool(self.ctx.fresh('less')))
        if isinstance(a, SpaceV) and isinstance(b, SpaceV) and name in '<>':
            return SBool(z3.Bool(self.ctx.fresh('smaller_space')))
        return od.ODomain.compare(self, I, name, a, b)

    def equal(self, I, a, b):
        if isinstance(a, SpaceV) and isinstance(b, SpaceV):
            return SBool(a.t == b.t)
        return SDomain.equal(self, I, a, b)


def t_key(cls):
    """what the ordering key of the class sorts before something else commutes with it"""
    def t(ctx):
        D, I = setup(ctx, KDomain, None, KInterp)
        D.contracts[unwrap(ORD.expr_order_key)] = lambda D, I, a, kw: Ord()
        x, y = El(D.fresh('x', V)), El(D.fresh('y', V))
        # operands on disjoint spaces commute, and so do left and right multiplications
        disj = z3.SetIntersect(SPACE(x.t), SPACE(y.t)) == z3.EmptySet(INT)
        ctx.assume(z3.Implies(disj, COMMUTE(x.t, y.t)))
        if cls is SOP.SuperOperatorTimes:
            ctx.assume(z3.Implies(z3.Or(z3.And(PRE(x.t), POST(y.t)), z3.And(POST(x.t), PRE(y.t))), COMMUTE(x.t, y.t)))
            ctx.assume(z3.Not(z3.And(PRE(x.t), POST(x.t))))
            ctx.assume(z3.Not(z3.And(PRE(y.t), POST(y.t))))
        k1, k2 = I.call(cls.order_key, [x], {}), I.call(cls.order_key, [y], {})
        r = I.compare(ast.Lt, k1, k2)
        f = z3.BoolVal(False) if r is None else r.t if isinstance(r, SBool) else z3.BoolVal(bool(I.truth(r)))
        D.prove('only commuting operands are exchanged', z3.Implies(f, COMMUTE(x.t, y.t)))
    return t


def t_keytuple(ctx):
    """KeyTuple orders lexicographically, also when elements can be compared as strings only"""
    f = ORD.KeyTuple.__lt__

    def inv(st):
        D = st.D
        j = z3.Int('kj!')
        yield 'equal so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < st.k), D.x(j) == D.y(j)))
    D, I = setup(ctx, TDomain, {(f, 0): Loop(inv)}, TInterp)
    D.x, D.y = D.fresh_fn('x', INT, INT), D.fresh_fn('y', INT, INT)
    n, m = D.int('n', lo=0).t, D.int('m', lo=0).t
    a = FL(n, lambda i: KV(D.x(zi(i))), 'tuple')
    b = FL(m, lambda i: KV(D.y(zi(i))), 'tuple')
    r = I.call_python(f, [a, b], {})
    t = z3.BoolVal(False) if r is None else r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))
    p, j = z3.Int('p!'), z3.Int('j!')
    pre = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), D.x(j) == D.y(j)))
    less = z3.Exists([p], z3.And(p >= 0, pre, z3.Or(z3.And(p < n, p < m, D.x(p) < D.y(p)), z3.And(p == n, n < m))))
    D.prove('true exactly for the lexicographically smaller one', t == less)


class KV(Sym):
    """an element of a key; its rank among all elements"""

    def __init__(self, t):
        self.t = t

    def vsub(self, pairs):
        return KV(z3.substitute(self.t, *pairs))

    def vite(self, c, o):
        return KV(z3.If(c, self.t, o.t))


class TDomain(SDomain):
    strs = False

    def compare(self, I, name, a, b):
        if isinstance(a, KV) and isinstance(b, KV):
            return SBool(a.t < b.t if name == '<' else a.t > b.t)
        return SDomain.compare(self, I, name, a, b)


class TInterp(SInterp):
    """elements that cannot be compared are ordered by their strings"""

    def compare(self, op, a, b):
        if isinstance(a, KV) and isinstance(b, KV) and not isinstance(a, KS) and self.ctx.choose(2, 'not comparable'):
            raise PyRaise(TypeError, 'not comparable')
        return super().compare(op, a, b)

    def call(self, f, args, kwargs):
        if f is str and isinstance(args[0], KV):
            return KS(args[0].t)
        return super().call(f, args, kwargs)


class KS(KV):
    pass


# ------------------------------------------------------------ total orders

def t_sorted(ctx):
    """for a key that orders all operands, the result is sorted"""
    RANK = z3.Function('rank', V, INT)

    def ordered(L):
        j = z3.Int('sj!q')
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < zi(L.n)), RANK(L.get(j)[1].t) <= RANK(L.get(j + 1)[1].t)))

    def outer(st):
        L = find(st, lambda v: is_keyed(v) and v is not st.D.ops)
        yield 'sorted so far', z3.BoolVal(True) if not isinstance(L, WL) else ordered(L)
        if isinstance(L, WL) and not z3.is_int_value(z3.simplify(zi(L.n))):
            j = st.D.fresh('j')
            e = L.get(j)
            yield 'each operand is stored with its own key', z3.Implies(z3.And(j >= 0, j < zi(L.n)), e[0].t == e[1].t)

    def inner(st):
        L = find(st, lambda v: is_keyed(v) and v is not st.D.ops)
        pos = zi(find(st, lambda v: isinstance(v, SInt) or type(v) is int))
        op = find(st, lambda v: isinstance(v, El)).t
        yield 'position in range', z3.And(pos >= 0, pos <= zi(L.n if isinstance(L, FL) else len(L)))
        if isinstance(L, WL):
            yield 'smaller than what follows', z3.Implies(pos < zi(L.n), RANK(op) <= RANK(L.get(pos)[1].t))

    D, I = setup(ctx, ODom, {(AP.orderby, 0): Loop(outer), (AP.orderby, 1): Loop(inner)})
    D.rank, D.keyed = RANK, True
    D.ops = ops = D.base('ops', kind='tuple')
    kw = KW()
    r = I.call_python(AP.orderby, [ClsV(), ops, kw], {})
    L = as_wl(r[0])
    j = D.fresh('j')
    ctx.assume(z3.And(j >= 0, j + 1 < zi(L.n)))
    D.prove('the result is sorted', RANK(el_of(L.get(j)).t) <= RANK(el_of(L.get(j + 1)).t))


class ODom(SDomain):
    def compare(self, I, name, a, b):
        if isinstance(a, Key) and isinstance(b, Key) and name in '<>':
            x, y = (a.t, b.t) if name == '<' else (b.t, a.t)
            return SBool(self.rank(x) < self.rank(y))
        return SDomain.compare(self, I, name, a, b)


def tasks():
    f = AP.scalars_to_op
    yield 'scalars_to_op', t_convert(f, {(f, 0): Loop(inv_convert)}), where(f)
    f = AP.convert_to_scalars
    yield 'convert_to_scalars', t_convert(f, {(f, 0): Loop(inv_convert)}), where(f)
    yield 'create.TensorKet', t_zero(STA.TensorKet), where(STA.TensorKet.create.__func__)
    yield 'create.SuperOperatorTimes', t_zero(SOP.SuperOperatorTimes), where(SOP.SuperOperatorTimes.create.__func__)
    yield 'check_cdims', t_cdims, where(AP.check_cdims)
    yield 'accept_bras', t_accept_bras, where(AP.accept_bras)
    for c, m in ((OPA.Adjoint, '_adjoint'), (OPA.PseudoInverse, '_pseudo_inverse'), (SOP.SuperAdjoint, '_adjoint')):
        yield 'delegate_to_method.' + c.__name__, t_delegate(c, m), where(AP.delegate_to_method)
    yield 'implied_local_space', t_implied, where(AP.implied_local_space)
    for c in (OPA.OperatorTimes, SOP.SuperOperatorTimes):
        yield 'order_key.' + c.__name__, t_key(c), where(c.order_key.__lt__)
    yield 'KeyTuple.__lt__', t_keytuple, where(ORD.KeyTuple.__lt__)
    yield 'orderby (sorted)', t_sorted, where(AP.orderby)
    f = AP.collect_summands
    yield 'collect_summands', c_collect(f, {(f, 0): Loop(inv_collect), (f, 1): Loop(inv_emit)}), where(f)
    f = AP.collect_scalar_summands
    yield 'collect_scalar_summands', c_collect(f, {(f, 0): Loop(inv_collect), (f, 1): Loop(inv_product), (f, 2): Loop(inv_emit)}), where(f)
    yield 'match_replace', keeps_fold(AP.match_replace, RULE_LOOPS), where(AP.match_replace)
    yield '_get_binary_replacement', t_get_binary, where(AP._get_binary_replacement)
    yield '_match_replace_binary_combine', t_combine, where(AP._match_replace_binary_combine)
    yield '_match_replace_binary', t_reduce, where(AP._match_replace_binary)
    yield 'match_replace_binary', keeps_fold(AP.match_replace_binary, prep=with_reduce), where(AP.match_replace_binary)
    yield 'orderby', keeps_fold(AP.orderby, ORDER_LOOPS, prep=lambda D: setattr(D, 'keyed', True)), where(AP.orderby)
    yield 'assoc', keeps_fold(AP.assoc), where(AP.assoc)
    yield 'filter_neutral', keeps_fold(AP.filter_neutral), where(AP.filter_neutral)
    yield 'filter_cid', keeps_fold(AP.filter_cid), where(AP.filter_cid)


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
