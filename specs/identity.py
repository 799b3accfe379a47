"""Contracts of equality, hashing and instance keys (C26) and of the arguments
that reconstruct an object (C14, C26).

For every class with its own __init__:
  reconstruct  K(*x.args, **x.kwargs) has the same key and the same attributes
               as x, for arbitrary (valid) constructor arguments
  determine    two instances with the same key have the same attributes
               (parameters, labels and spaces are never identified)
For the equality methods: == is equality of a canonical value, and the hash is
a function of that value: hence reflexive, symmetric, transitive and consistent
with the hash.

Assumed: nested_tuple is injective up to equality of the entries (tuples, and
mappings sorted by key, are kept entry by entry); `ScalarValue.create` returns a
scalar unchanged and is a function of its argument; the default spaces are a
function of the label; the elements of an argument are compared by their own ==
(induction over the size of the expression); numbers and SymPy objects: == is an
equivalence, consistent with hash."""
import importlib
import ast
import functools
import inspect
from collections import OrderedDict
from pyvc import live   # noqa: F401
import z3
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, Term, Loop, Obj, FSet
from pyvc.engine import PyRaise, BoundMethod, Unsupported, Infeasible, SDict, SymStr, IFunc, _b_isinstance
from pyvc.domain import Sym
from pyvc.source import where, unwrap

M = lambda n: importlib.import_module('qnet.' + n)
AA, AQ, SC, OP = M('algebra.core.abstract_algebra'), M('algebra.core.abstract_quantum_algebra'), M('algebra.core.scalar_algebra'), M('algebra.core.operator_algebra')
ST, SO, CI, HS = M('algebra.core.state_algebra'), M('algebra.core.super_operator_algebra'), M('algebra.core.circuit_algebra'), M('algebra.core.hilbert_space_algebra')
IX, IO, MA = M('utils.indices'), M('algebra.core.indexed_operations'), M('algebra.core.matrix_algebra')
ORD = M('utils.ordering')
CONT = M('utils.containers')
import sympy
Expression = AA.Expression
VAL = od.VAL


class Ap(Sym):
    """a function of values: equal arguments give equal values"""

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return '%s%r' % (self.name, self.args)

    def vsub(self, pairs):
        return Ap(self.name, [od.vsub(a, pairs) for a in self.args])


def _yes(*a):
    return True


_yes.symbolic_ok = True


def eqv(a, b):
    """formula: equal values"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, Ap) and isinstance(b, Ap):
        if a.name != b.name or len(a.args) != len(b.args):
            return z3.BoolVal(False)
        return z3.And([eqv(x, y) for x, y in zip(a.args, b.args)] + [z3.BoolVal(True)])
    if isinstance(a, SDict):
        a = a.d if hasattr(a, 'd') else a
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return z3.BoolVal(False)
        return z3.And([eqv(a[k], b[k]) for k in a] + [z3.BoolVal(True)])
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([eqv(x, y) for x, y in zip(a, b)] + [z3.BoolVal(True)])
    if isinstance(a, (FL, tuple, list)) and isinstance(b, (FL, tuple, list)):
        a, b = od.to_fl(a), od.to_fl(b)
        od._cnt[0] += 1
        i = z3.Int('e!%d' % od._cnt[0])
        return z3.And(zi(a.n) == zi(b.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(a.n)), eqv(a.get(i), b.get(i)))))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return z3.BoolVal(a is b)
    if isinstance(a, Sym) != isinstance(b, Sym):
        return z3.BoolVal(False)
    return od.veq(a, b)


def classes_of(base):
    """the concrete classes an argument may have"""
    out = []
    todo = list(base)
    for k in todo:
        out.append(k)
        todo.extend(s for s in k.__subclasses__() if s not in todo)
    return [k for k in out if not inspect.isabstract(k)]


class IInterp(od.OInterp):
    def e_List(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            items = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value, env)
                    items.extend([v] if isinstance(v, FL) else self.to_seq(v).values() if hasattr(self.to_seq(v), 'values') else v)
                else:
                    items.append(self.eval(x, env))
            v = mixed(items, self.dom)
            return FL(v.n, v.get, 'list') if isinstance(v, FL) else list(v)
        return super().e_List(e, env)

    def _bind(self, node, args, kwargs, defaults, kwdefaults, name):
        n = len(node.args.posonlyargs + node.args.args)
        args = list(args)
        k = next((k for k, x in enumerate(args) if isinstance(x, FL)), None)
        if k is not None and k < n and k == len(args) - 1 and node.args.vararg:
            x = args.pop()
            while len(args) < n:
                j = len(args) - k
                if not self.dom.entails(zi(x.n) > j):
                    raise Unsupported('number of arguments')
                args.append(x.get(j))
            off = n - k
            args.append(FL(z3.simplify(zi(x.n) - off), lambda i: x.get(z3.simplify(zi(i) + off)), 'tuple'))
        if node.args.vararg and any(isinstance(a, FL) for a in args):
            lead, rest = args[:n], args[n:]
            if len(rest) == 1 and isinstance(rest[0], FL) and not any(isinstance(a, FL) and a.kind == 'star' for a in lead):
                d = super()._bind(node, lead, kwargs, defaults, kwdefaults, name)
                d[node.args.vararg.arg] = FL(rest[0].n, rest[0].get, 'tuple')
                return d
            if any(isinstance(a, FL) for a in rest):
                d = super()._bind(node, lead, kwargs, defaults, kwdefaults, name)
                d[node.args.vararg.arg] = mixed(rest, self.dom)
                return d
        return super()._bind(node, args, kwargs, defaults, kwdefaults, name)


def mixed(items, D):
    """(a, b, *rest): a list with a concrete beginning"""
    for k, x in enumerate(items):
        if isinstance(x, FL) and k == len(items) - 1:
            head = list(items[:k])

            def get(i):
                i = zi(i)
                r = x.get(z3.simplify(i - len(head)))
                for j in range(len(head) - 1, -1, -1):
                    if not z3.is_int_value(i) and D.entails(i != j):
                        continue
                    r = ite(i == j, head[j], r)
                return r
            return FL(z3.simplify(zi(x.n) + k), get, 'tuple')
    if not any(isinstance(x, FL) for x in items):
        return tuple(items)
    raise Unsupported('star arguments')


def ite(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c) or a is b:
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Term) and isinstance(b, Term):
        return Term(z3.If(c, a.t, b.t), (a.cands or ()) + tuple(b.cands or ()) if a.cands and b.cands else None)
    return od.vite(c, a, b)


def mkdict(a, kw):
    if len(a) > 1 or a and isinstance(a[0], Sym):
        raise Unsupported('dict')
    d = dict(a[0]) if a else {}
    if any(isinstance(k, Sym) for k in d):
        raise Unsupported('dictionary with unknown keys')
    d.update(kw)
    return d


class IDomain(od.ODomain):
    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.timeout = 10000
        self.ask = {}
        self.cards = []
        self.compared = []
        v, f = z3.Const('v?', VAL), z3.Function('as_scalar', VAL, VAL)
        ctx.assume(z3.ForAll([v], f(f(v)) == f(v), patterns=[f(f(v))]))
        self.attrs = {}
        c = self.contracts
        c[unwrap(SC.ScalarValue.create)] = lambda D, I, a, kw: D.scalar(a[-1])
        c[unwrap(CONT.nested_tuple)] = lambda D, I, a, kw: Ap('nested', [a[0]])
        c[unwrap(HS.ProductSpace.create)] = lambda D, I, a, kw: D.space('product', a[1:] if a and a[0] is HS.ProductSpace else a)
        c[unwrap(AQ.ensure_local_space)] = lambda D, I, a, kw: D.ensure_local(a[0])
        c[unwrap(HS.LocalSpace._unpack_basis_label_or_index)] = lambda D, I, a, kw: D.unpack(I, *a[-2:])
        c[unwrap(ST._check_kets)] = lambda D, I, a, kw: None
        c[hasattr] = lambda D, I, a, kw: D.hasattr(*a)
        c[sorted] = lambda D, I, a, kw: D.sort(I, a, kw)
        c[dict] = lambda D, I, a, kw: mkdict(a, kw)
        c[isinstance] = lambda D, I, a, kw: D.isinst(I, *a)
        c[str] = lambda D, I, a, kw: D.tostr(*a)
        self.classes[ORD.KeyTuple] = lambda D, I, a, kw: Ap('KeyTuple', a)

    # ---- values
    def val(self, name, kinds, **attrs):
        t = Term(z3.Const(self.ctx.fresh(name), VAL), tuple(classes_of(kinds)))
        return t

    def vals(self, name, kinds, lo=0):
        n = self.int(name + '_n', lo=lo)
        f = z3.Function(self.ctx.fresh(name), z3.IntSort(), VAL)
        c = tuple(classes_of(kinds))
        return FL(zi(n), lambda i: Term(f(zi(i)), c), 'tuple')

    def fn(self, name, *ts, cands=None):
        """a fixed function of values"""
        f = z3.Function(name, *([t.sort() for t in ts] + [VAL]))
        return Term(f(*ts), cands)

    def scalar(self, x):
        if isinstance(x, Term):
            if x.cands and all(issubclass(k, SC.Scalar) for k in x.cands):
                return x
            t = self.fn('as_scalar', x.t, cands=tuple(classes_of([SC.Scalar])))
            return t
        if isinstance(x, Ap) and x.name == 'scalar':
            return x
        return Ap('scalar', [x])

    def space(self, name, args):
        return Ap('space:' + name, args)

    def default_space(self, x):
        return self.fn('default_space', x.t, cands=tuple(classes_of([HS.LocalSpace])))

    def ensure_local(self, hs):
        if isinstance(hs, Term):
            if hs.cands and all(issubclass(k, HS.LocalSpace) for k in hs.cands):
                return hs
            return self.default_space(hs)
        raise Unsupported('space %r' % (hs,))

    def sort(self, I, a, kw):
        v = I.to_seq(a[0]) if not isinstance(a[0], (list, tuple)) else a[0]
        v = v.values() if hasattr(v, 'values') else v
        v = list(v)
        if kw or not all(isinstance(x, tuple) and x and isinstance(x[0], str) for x in v) or len({x[0] for x in v}) < len(v):
            raise Unsupported('sorted')
        return sorted(v, key=lambda x: x[0])

    def isinst(self, I, o, c):
        if isinstance(o, Term) and o.cands and isinstance(c, tuple):
            r = {any(issubclass(k, x) for x in c) for k in o.cands}
            if len(r) == 1:
                return r.pop()
        return _b_isinstance(I, [o, c], {})

    def hasattr(self, o, name):
        if isinstance(o, Term) and o.cands:
            r = {name in dir(k) or name in ('_space', '_order_key') and issubclass(k, Expression) for k in o.cands}
            if len(r) == 1:
                return r.pop()
            return SBool(z3.Function('has_' + name, VAL, z3.BoolSort())(o.t))
        if isinstance(o, (Ap, SInt, int)):
            return name == '_order_key' and isinstance(o, Ap) and o.name.startswith('space:')
        if isinstance(o, Obj):
            return self.find(o.cls, name) is not None or name in o.fields
        if isinstance(o, FL):
            return False
        raise Unsupported('hasattr')

    def tostr(self, x):
        if isinstance(x, Term):
            if x.cands == (str,):
                return x
            return self.fn('str', x.t, cands=(str,))
        if isinstance(x, str):
            return x
        if isinstance(x, SInt):
            return Term(z3.Function('decimal', z3.IntSort(), VAL)(x.t), (str,))
        if not isinstance(x, Sym):
            return str(x)
        raise Unsupported('str of %r' % (x,))

    def to_int(self, I, o):
        if isinstance(o, Term):
            f = z3.Function('int', VAL, z3.IntSort())
            return SInt(f(o.t))
        raise Unsupported('int')

    def has_basis(self, hs):
        return z3.Function('has_basis', VAL, z3.BoolSort())(hs.t)

    def unpack(self, I, hs, x):
        """contract: (label, index); for a space with a basis the label is that
        of the index and conversely, otherwise the label is str(index)"""
        L = z3.Function('label_of', VAL, VAL, VAL)
        X = z3.Function('index_of', VAL, VAL, VAL)
        if isinstance(hs, Ap):
            raise Unsupported('product space')
        t = x.t
        lab, ind = L(hs.t, t), X(hs.t, t)
        basis = self.has_basis(hs)
        sym = all(issubclass(k, IX.SymbolicLabelBase) for k in x.cands)
        isstr = x.cands == (str,)
        a = self.ctx.assume
        if sym:
            a(lab == t)
            lc = x.cands
        else:
            lc = (str,)
            if isstr:
                a(lab == t)
                a(basis)              # BasisNotSetError otherwise
            else:
                a(ind == t)
        # the label stands for the index and conversely
        a(z3.And(X(hs.t, lab) == ind, z3.Implies(z3.Or(basis, sym), L(hs.t, lab) == lab)))
        if not sym:
            a(z3.And(L(hs.t, ind) == lab, X(hs.t, ind) == ind))
        return Term(lab, lc), Term(ind, (int,) if not sym else (sympy.Basic,))

    # ---- objects
    def term_attr(self, I, o, name):
        if name in ('space', '_order_key', 'index_symbol', 'label', 'args', 'kwargs', 'shape'):
            if name == 'space' and o.cands and all(issubclass(k, SC.Scalar) for k in o.cands):
                return HS.TrivialSpace
            return self.fn('attr_' + name, o.t, cands=tuple(classes_of([HS.HilbertSpace])) if name == 'space' else None)
        if name == 'has_basis':
            return SBool(self.has_basis(o))
        if name == 'basis_labels':
            if not I.truth(SBool(self.has_basis(o))):
                raise PyRaise(HS.BasisNotSetError, '')
            return Ap('basis_labels', [o])
        if name == 'isbra':
            return False
        if name in ('__mul__',):
            return BoundMethod(o, name)
        if name in ('match',):
            return BoundMethod(o, name)
        if name == '_unpack_basis_label_or_index':
            return BoundMethod(o, name)
        raise Unsupported('attribute %s of a value' % name)

    def getattr(self, I, o, name):
        if isinstance(o, Ap):
            if name == '_order_key':
                return Ap('order_key', [o])
            if o.name == 'regex':
                return functools.partial(_yes)
            raise Unsupported('attribute %s of %r' % (name, o.name))
        if isinstance(o, Obj) and name == '__dict__':
            return Fields(o)
        if isinstance(o, Obj) and name not in o.fields:
            f = self.find(o.cls, name)
            if f is not None and name in ('_rx_label',):
                return Ap('regex', [])
            if name == '_order_args' and False:
                pass
            if f is not None and isinstance(f[1], property) and isinstance(f[1].fget, functools.partial):
                g = f[1].fget
                return I.call_python(g.func, [o] + list(g.args), dict(g.keywords))
        return od.ODomain.getattr(self, I, o, name)

    def call_method(self, I, m, args, kwargs):
        if isinstance(m.obj, Term) and m.name == '_unpack_basis_label_or_index':
            return self.unpack(I, m.obj, args[0])
        return od.ODomain.call_method(self, I, m, args, kwargs)

    def find(self, cls, name):
        if name == '__hash__':
            return None
        return od.ODomain.find(self, cls, name)

    def getitem(self, I, o, i):
        if isinstance(o, Ap) and o.name == 'basis_labels':
            hs = o.args[0]
            lab = self.fn('label_of', hs.t, i.t, cands=(str,))
            L = z3.Function('label_of', VAL, VAL, VAL)
            self.ctx.assume(L(hs.t, lab.t) == lab.t)
            return lab
        return od.ODomain.getitem(self, I, o, i)

    def setitem(self, I, o, i, v):
        if isinstance(o, Fields):
            self.ctx.set_item(o.obj.fields, i, v)
            return
        return od.ODomain.setitem(self, I, o, i, v)

    def term_isinstance(self, I, o, c):
        if o.cands is None:
            raise Unsupported('isinstance of an unknown value')
        yes = {issubclass(k, c) for k in o.cands}
        if len(yes) == 1:
            return yes.pop()
        key = (o.t.get_id(), c)
        if key not in self.ask:
            p = z3.Function('is_' + c.__name__, VAL, z3.BoolSort())(o.t)
            self.ask[key] = p
        return SBool(self.ask[key])

    def isinstance(self, I, o, c):
        if isinstance(o, Ap):
            k = {'scalar': SC.ScalarValue}.get(o.name)
            if o.name.startswith('space:'):
                k = HS.ProductSpace
            if k is not None:
                return issubclass(k, c)
            raise Unsupported('class of %s' % o.name)
        return od.ODomain.isinstance(self, I, o, c)

    def binop(self, I, name, a, b):
        if name == '*' and (isinstance(a, (Term, Ap)) or isinstance(b, (Term, Ap))):
            if isinstance(a, Term) and isinstance(b, Sym) is False:
                return Ap('times', [a, b])
            return Ap('times', [a, b])
        return od.ODomain.binop(self, I, name, a, b)

    def compare(self, I, name, a, b):
        if isinstance(a, (Term, Ap)) and isinstance(b, (Term, Ap)):
            key = Ap(name, [a, b])
            for k, p in self.compared:
                if z3.is_true(z3.simplify(eqv(k, key))):
                    return SBool(p)
            p = z3.Bool(self.ctx.fresh('cmp'))
            for k, q in self.compared:
                self.ctx.assume(z3.Implies(eqv(k, key), p == q))
            self.compared.append((key, p))
            return SBool(p)
        return od.ODomain.compare(self, I, name, a, b)

    def other_binop(self, I, name, a, b):
        return Ap('op' + name, [a, b])

    def equal(self, I, a, b):
        if isinstance(a, (Ap, Term)) or isinstance(b, (Ap, Term)):
            if isinstance(a, Sym) and isinstance(b, Sym):
                return SBool(eqv(a, b))
            return SBool(z3.Bool(self.ctx.fresh('eq')))
        return od.ODomain.equal(self, I, a, b)

    def construct(self, I, cls, args, kwargs):
        if issubclass(cls, HS.LocalSpace):
            return self.default_space(args[0])
        return od.ODomain.construct(self, I, cls, args, kwargs)

    def make_set(self, I, v):
        if isinstance(v, (list, tuple, FL)):
            return SetOf(v)
        return od.ODomain.make_set(self, I, v)

    def length(self, I, o):
        if isinstance(o, SetOf):
            c = z3.Int(self.ctx.fresh('card'))
            for v, x in self.cards:
                self.ctx.assume(z3.Implies(eqv(v, o.v), c == x))
            self.cards.append((o.v, c))
            return SInt(c)
        if isinstance(o, Term):
            return self.to_int(I, self.fn('len', o.t))
        return od.ODomain.length(self, I, o)

    def str_of(self, I, o):
        return SymStr()


class Fields(Sym):
    def __init__(self, obj):
        self.obj = obj


class SetOf(Sym):
    def __init__(self, v):
        self.v = v


# attributes that depend on the history only (caches)
SKIP = {'_minimal_kwargs', '_hash', '_free_symbols', '_bound_symbols', '_all_symbols'}


def make(D, I, K, args, kwargs):
    o = Obj(K)
    for k in K.__mro__:
        if '__init__' in k.__dict__ and k is not object:
            for l in od.loops_of(k.__dict__['__init__']):
                D.loops.setdefault(id(l), Loop(lambda st: []))
    D.owner = K
    for k in K.__mro__:
        if '__init__' in k.__dict__ and k is not object:
            I.call_python(k.__dict__['__init__'], [o] + list(args), kwargs, k)
            break
    if '_instance_key' not in o.fields:
        raise Unsupported('no key')
    return o


def valid(D, I, K, args, kwargs):
    """arguments that the class accepts"""
    try:
        return make(D, I, K, args, kwargs)
    except PyRaise as e:
        if issubclass(e.exc_type, (ValueError, TypeError, AssertionError, M('algebra.core.exceptions').AlgebraException)):
            raise Infeasible()
        raise


def state(o):
    return OrderedDict(sorted((k, v) for k, v in o.fields.items() if k not in SKIP))


def public(o):
    return OrderedDict((k, v) for k, v in state(o).items() if k != '_instance_key' and k not in ('_order_key', '_order_args', '_order_kwargs', '_order_coeff'))


def args_of(D, I, o):
    a = D.getattr(I, o, 'args')
    kw = D.getattr(I, o, 'kwargs')
    if isinstance(kw, SDict):
        raise Unsupported('kwargs %r' % (kw,))
    if isinstance(a, FL):
        a = [a]
    return list(a), dict(kw)


def t_reconstruct(K, mk):
    def t(ctx):
        D = IDomain(ctx)
        I = IInterp(ctx, D)
        a, kw = mk(D, '')
        o = valid(D, I, K, a, kw)
        a2, kw2 = args_of(D, I, o)
        o2 = make(D, I, K, a2, kw2)
        D.prove('K(*x.args, **x.kwargs) has the same key', eqv(o.fields['_instance_key'], o2.fields['_instance_key']))
        s, s2 = public(o), public(o2)
        D.prove('the same attributes are set', z3.BoolVal(list(s) == list(s2)))
        for f in s:
            if f in s2:
                D.prove('attribute %s' % f, eqv(s[f], s2[f]))
    return t


def t_determine(K, mk):
    def t(ctx):
        D = IDomain(ctx)
        I = IInterp(ctx, D)
        a, kw = mk(D, '1')
        o = valid(D, I, K, a, kw)
        b, kw = mk(D, '2')
        p = valid(D, I, K, b, kw)
        ctx.assume(eqv(o.fields['_instance_key'], p.fields['_instance_key']))
        s, s2 = public(o), public(p)
        D.prove('the same attributes are set', z3.BoolVal(list(s) == list(s2)))
        for f in s:
            if f in s2:
                D.prove('equal keys: equal %s' % f, eqv(s[f], s2[f]))
    return t


def ops(base, lo=0):
    def mk(D, i):
        return [D.vals('ops' + i, [base], lo)], {}
    return mk


def several(*bases, **kws):
    def mk(D, i):
        def one(nm, b):
            if callable(b) and not isinstance(b, type):
                return b(D, i)
            return D.val(nm + i, b if isinstance(b, (list, tuple)) else [b])
        return [one('a%d' % k, b) for k, b in enumerate(bases)], {k: one(k, b) for k, b in kws.items()}
    return mk


def star(base):
    return lambda D, i: D.vals('sym' + i, base if isinstance(base, list) else [base])


RAW = [int, float, complex, sympy.Symbol, SC.Scalar]


def choice(nm, *alts):
    def f(D, i):
        k = D.ctx.choose(len(alts), nm)
        return D.val(nm + i, alts[k] if isinstance(alts[k], list) else [alts[k]])
    return f


def same_choice(nm, *alts):
    """the alternatives are explored separately; in a pair of objects both vary"""
    return choice(nm, *alts)


SYMLAB = [IX.FockIndex, IX.StrLabel, IX.SpinIndex]


def component(K):
    def mk(D, i):
        kw = {}
        if D.ctx.choose(2, 'label' + i):
            kw['label'] = D.val('label' + i, [str])
        for a in K.ARGNAMES:
            if D.ctx.choose(2, a + i):
                kw[a] = D.val(a + i, RAW)
        return [], kw
    return mk


def local_space(D, i):
    c = lambda nm: D.ctx.choose(2, nm + i)
    kw = {}
    if c('basis'):
        kw['basis'] = D.vals('basis' + i, [str])
    if c('dimension'):
        kw['dimension'] = D.val('dimension' + i, [int])
        D.ctx.assume(z3.Function('int', VAL, z3.IntSort())(kw['dimension'].t) >= 1)
    if c('identifiers'):
        kw['local_identifiers'] = (('Create', D.val('ident' + i, [str])),)
    if c('order_index'):
        kw['order_index'] = D.val('order' + i, [int])
    return [D.val('label' + i, [str])], kw


def table():
    E = []
    for mod, base in ((OP, OP.Operator), (ST, ST.State), (SO, SO.SuperOperator), (SC, SC.Scalar)):
        for nm, K in sorted(vars(mod).items()):
            if inspect.isclass(K) and issubclass(K, Expression) and not inspect.isabstract(K) and K.__module__ == mod.__name__:
                E.append((K, base))
    out = []
    for K, base in E:
        if isinstance(K, type) and issubclass(K, AQ.QuantumSymbol) and not issubclass(K, ST.BasisKet):
            mk = several(choice('label', str, SYMLAB), star(RAW), hs=choice('hs', HS.HilbertSpace, [str]))
        elif K is ST.BasisKet:
            mk = several(choice('label', str, int, SYMLAB), hs=choice('hs', HS.LocalSpace, [str]))
        elif K is OP.LocalSigma:
            mk = several(choice('j', str, int, SYMLAB), choice('k', str, int, SYMLAB), hs=choice('hs', HS.LocalSpace, [str]))
        elif issubclass(K, OP.LocalOperator):
            mk = several(*[RAW] * len(K._arg_names), hs=choice('hs', HS.LocalSpace, [str]))
        elif K is ST.CoherentStateKet:
            mk = several(RAW, hs=choice('hs', HS.LocalSpace, [str]))
        elif issubclass(K, IO.IndexedSum):
            mk = several(base, lambda D, i: D.vals('ranges' + i, [IX.IndexRangeBase]))
        elif issubclass(K, (AQ.QuantumPlus, AQ.QuantumTimes)):
            mk = ops(base, 2)
        elif issubclass(K, AQ.ScalarTimesQuantumExpression):
            mk = several(choice('coeff', SC.Scalar, [int, float, complex, sympy.Symbol]), base)
        elif issubclass(K, AQ.QuantumDerivative):
            continue
        elif K is OP.OperatorTrace:
            mk = several(base, over_space=choice('over', HS.HilbertSpace, [str]))
        elif K is OP.OperatorPlusMinusCC:
            def mk(D, i):
                return [D.val('a' + i, [OP.Operator])], dict(sign=(1, -1)[D.ctx.choose(2, 'sign' + i)])
        elif K is OP.Commutator:
            mk = several(base, base)
        elif K is SC.ScalarPower:
            mk = several(SC.Scalar, SC.Scalar)
        elif K is SC.ScalarValue:
            mk = several([int, float, complex, sympy.Symbol])
        elif K is ST.OperatorTimesKet:
            mk = several(OP.Operator, ST.State)
        elif K in (ST.BraKet, ST.KetBra):
            mk = several(ST.State, ST.State)
        elif K is SO.SuperOperatorTimesOperator:
            mk = several(SO.SuperOperator, OP.Operator)
        elif K in (SO.SPre, SO.SPost):
            mk = several(OP.Operator)
        elif issubclass(K, AQ.SingleQuantumOperation):
            mk = several(base)
        else:
            continue
        out.append((K, mk))
    for mod in (M('algebra.library.fock_operators'), M('algebra.library.spin_algebra')):
        for nm, K in sorted(vars(mod).items()):
            if inspect.isclass(K) and issubclass(K, OP.LocalOperator) and K.__module__ == mod.__name__:
                if issubclass(K, OP.LocalSigma):
                    continue
                h = K._hs_cls
                out.append((K, several(*[RAW] * len(K._arg_names), hs=choice('hs', h, [str]))))
    out.append((HS.LocalSpace, local_space))
    out.append((CI.CPermutation, several([tuple])))
    for K in (M('algebra.library.circuit_components').CoherentDriveCC, M('algebra.library.circuit_components').PhaseCC, M('algebra.library.circuit_components').Beamsplitter):
        out.append((K, component(K)))
    out.append((CI.CircuitSymbol, several(str, star(RAW), cdim=int)))
    out.append((CI.SeriesProduct, ops(CI.Circuit, 2)))
    out.append((CI.Concatenation, ops(CI.Circuit, 2)))
    out.append((CI.SeriesInverse, several(CI.Circuit)))
    out.append((CI.Feedback, several(CI.Circuit, out_port=int, in_port=int)))
    return out


# ------------------------------------------------------------------ equality and hashes

KEYV = z3.Function('value_of_key', VAL, VAL)          # expressions without special equality: the key
NUM = z3.Function('number', z3.IntSort(), VAL)
ISKEY = z3.Function('is_key', VAL, z3.BoolSort())     # the canonical value is a key, not a number
CLSOF = z3.Function('class_in_key', VAL, z3.IntSort())
HASH = z3.Function('hash', VAL, z3.IntSort())
IKEY = z3.Function('key_of_multiple', VAL, VAL)       # key of (coefficient, IdentityOperator)
SVKEY = z3.Function('key_of_ScalarValue', VAL, VAL)
NUMBERS = [int, float, complex, sympy.Symbol]


class Thing:
    def __init__(self, obj, can):
        self.obj, self.can = obj, can


class QDomain(IDomain):
    """equality of expressions"""

    def __init__(self, ctx):
        IDomain.__init__(self, ctx)
        self.contracts[hash] = lambda D, I, a, kw: D.hash(I, a[0])
        self.contracts[type] = c_type
        ctx.assume(z3.Distinct(NUM(z3.IntVal(0)), NUM(z3.IntVal(1))))
        for k in (0, 1):
            ctx.assume(z3.Not(ISKEY(NUM(z3.IntVal(k)))))

    def thing(self, nm, kind):
        """an object of the given kind and its canonical value"""
        ctx = self.ctx
        if kind in ('operator', 'scalar', 'space', 'circuit'):
            K = {'operator': OP.OperatorTimes, 'scalar': SC.ScalarTimes, 'space': HS.LocalSpace, 'circuit': CI.CircuitSymbol}[kind]
            t = z3.Const(ctx.fresh(nm), VAL)
            o = Obj(K, dict(_instance_key=Term(t), _hash=None))
            v = KEYV(t)
            ctx.assume(z3.And(ISKEY(v), CLSOF(t) == KINDS.index(kind)))   # the key begins with the class
            self.inj(t)
            # its class is another one than that of a multiple of the identity or of a ScalarValue
            self.others(t)
        elif kind == 'number':
            t = z3.Const(ctx.fresh(nm), VAL)
            ctx.assume(z3.Not(ISKEY(t)))
            return Thing(Term(t, tuple(NUMBERS)), t)
        elif kind == 'ScalarValue':
            v = z3.Const(ctx.fresh(nm), VAL)
            ctx.assume(z3.Not(ISKEY(v)))
            t = SVKEY(v)
            o = Obj(SC.ScalarValue, dict(_val=Term(v, tuple(NUMBERS)), _instance_key=Term(t), _hash=None))
        elif kind in ('Zero', 'One'):
            return Thing(getattr(SC, kind), NUM(z3.IntVal({'Zero': 0, 'One': 1}[kind])))
        elif kind == 'multiple':
            ks = ('ScalarValue', 'scalar', 'Zero', 'One')
            c = self.thing(nm + 'c', ks[ctx.choose(len(ks), 'coefficient')])
            v = c.can
            t = IKEY(v)
            o = Obj(OP.ScalarTimesOperator, dict(_operands=(c.obj, OP.IdentityOperator), _instance_key=Term(t), _hash=None))
            self.injk(v)
        elif kind == 'foreign':
            return Thing('a string', None)
        if ctx.choose(2, 'hash known') and '_hash' in o.fields:
            o.fields['_hash'] = SInt(HASH(v))
        return Thing(o, v)

    def inj(self, t):
        for u in self.keys:
            self.ctx.assume((KEYV(t) == KEYV(u)) == (t == u))
        self.keys.append(t)
        for v in self.mults:
            self.ctx.assume(t != IKEY(v))

    def injk(self, v):
        for u in self.mults:
            self.ctx.assume((IKEY(v) == IKEY(u)) == (v == u))
        for t in self.keys:
            self.ctx.assume(t != IKEY(v))
        self.mults.append(v)

    keys = property(lambda self: self.__dict__.setdefault('_keys', []))
    mults = property(lambda self: self.__dict__.setdefault('_mults', []))

    def others(self, t):
        v = z3.Const('v??', VAL)
        self.ctx.assume(z3.ForAll([v], z3.And(t != IKEY(v), t != SVKEY(v)), patterns=[IKEY(v), SVKEY(v)]))

    def getattr(self, I, o, name):
        if isinstance(o, Term) and name == '_instance_key':
            raise PyRaise(AttributeError, name)     # a number
        return IDomain.getattr(self, I, o, name)

    def find(self, cls, name):
        return od.ODomain.find(self, cls, name)

    def hash(self, I, x):
        if isinstance(x, Obj):
            f = self.find(x.cls, '__hash__')
            return self._method(I, f[1], x, [], {}, f[0])
        if isinstance(x, Term):
            if any(z3.eq(x.t, k) for k in self.keys):
                return SInt(HASH(KEYV(x.t)))
            return SInt(HASH(x.t))
        if x is SC.Zero or x is SC.One:
            return I.call_python(type(x).__dict__['__hash__'], [x], {})
        if isinstance(x, int):
            return SInt(HASH(NUM(z3.IntVal(x))))
        raise Unsupported('hash of %r' % (x,))

    def native_eq(self, I, x, y):
        return I.call_python(type(x).__dict__['__eq__'], [x, y], {})

    def equal(self, I, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                f = self.find(x.cls, '__eq__')
                return self._method(I, f[1], x, [y], {}, f[0])
            if x is SC.Zero or x is SC.One:
                return self.native_eq(I, x, y)
        if isinstance(a, Term) and isinstance(b, Term):
            return SBool(a.t == b.t)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and isinstance(y, int) and not isinstance(y, bool):
                return SBool(x.t == NUM(z3.IntVal(y)))
            if isinstance(x, Term) and isinstance(y, (str, tuple)):
                return False          # a key of another class
        raise Unsupported('equality of %r and %r' % (a, b))

    def is_(self, I, a, b):
        if isinstance(a, (Obj, Term)) or isinstance(b, (Obj, Term)):
            return a is b
        return IDomain.is_(self, I, a, b)

    def is_none(self, I, o):
        return False


def c_type(D, I, a, kw):
    if len(a) == 1 and isinstance(a[0], SBool):
        return bool
    if len(a) == 1 and isinstance(a[0], Obj):
        return a[0].cls
    return type(*a)


def tru(v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))


KINDS = ('operator', 'scalar', 'space', 'circuit', 'number', 'ScalarValue', 'Zero', 'One', 'multiple', 'foreign')


def t_equality(kind):
    def t(ctx):
        D = QDomain(ctx)
        I = IInterp(ctx, D)
        x = D.thing('x', kind)
        y = D.thing('y', KINDS[ctx.choose(len(KINDS), 'other')])
        e = D.equal(I, x.obj, y.obj)
        if e is NotImplemented:
            raise Unsupported('NotImplemented')
        same = z3.BoolVal(False) if y.can is None else x.can == y.can
        D.prove('== is equality of the canonical values', tru(e) == same)
        if isinstance(x.obj, Obj):
            f = D.find(x.obj.cls, '__ne__')
            n = D._method(I, f[1], x.obj, [y.obj], {}, f[0])
            if n is NotImplemented:
                D.prove('!= is defined', z3.BoolVal(False))
            else:
                D.prove('!= is the negation of ==', tru(n) == z3.Not(tru(e)))
    return t


def t_hash(kind):
    def t(ctx):
        D = QDomain(ctx)
        I = IInterp(ctx, D)
        x = D.thing('x', kind)
        h = D.hash(I, x.obj)
        D.prove('the hash is a function of the canonical value', zi(h) == HASH(x.can))
        h2 = D.hash(I, x.obj)
        D.prove('the hash does not change', zi(h2) == zi(h))
        D.prove('an object equals itself', tru(D.equal(I, x.obj, x.obj)))
    return t


def t_key(ctx):
    """the default key consists of the class and of all arguments"""
    D = IDomain(ctx)
    I = IInterp(ctx, D)
    a, k = Ap('args', []), Ap('kwargs', [])
    D.contracts[unwrap(CONT.nested_tuple)] = lambda D, I, x, kw: (Ap('nested', [x[0]]),)
    r = I.call_python(unwrap(Expression._get_instance_key), [OP.OperatorTimes, a, k], {})
    items = list(r) if isinstance(r, tuple) else []

    def has(x):
        return any(z3.is_true(z3.simplify(eqv(i, Ap('nested', [x])))) for i in items)
    D.prove('the class is part of the key', z3.BoolVal(OP.OperatorTimes in [i for i in items if isinstance(i, type)]))
    D.prove('the arguments are part of the key', z3.BoolVal(has(a)))
    D.prove('the keyword arguments are part of the key', z3.BoolVal(has(k)))


class ND(Sym):
    """a numpy array with two dimensions, by its shape and the elements in order"""

    def __init__(self, r, c, el):
        self.r, self.c, self.el = r, c, el

    def flat(self):
        return FL(z3.simplify(self.r * self.c), lambda i: Term(self.el(zi(i))), 'list')


class XDomain(IDomain):
    """matrices"""

    def __init__(self, ctx):
        IDomain.__init__(self, ctx)
        self.contracts[hash] = lambda D, I, a, kw: Ap('hash', [a[0]])
        self.contracts[unwrap(CONT.nested_tuple)] = lambda D, I, a, kw: (Ap('nested', [a[0]]),)
        self.contracts[bool] = lambda D, I, a, kw: a[0] if isinstance(a[0], SBool) else SBool(z3.BoolVal(I.truth(a[0])))

    def matrix(self, nm):
        r, c = self.int(nm + '_r', lo=0).t, self.int(nm + '_c', lo=0).t
        f = z3.Function(self.ctx.fresh(nm), z3.IntSort(), VAL)
        m = ND(r, c, lambda i: f(i))
        return Obj(MA.Matrix, dict(matrix=m, _hash=None)), m

    def getattr(self, I, o, name):
        if isinstance(o, ND):
            if name == 'shape':
                return (SInt(o.r), SInt(o.c))
            return BoundMethod(o, name)
        if isinstance(o, SBool) or isinstance(o, Ap) and o.name == 'same':
            return BoundMethod(o, name)
        return IDomain.getattr(self, I, o, name)

    def call_method(self, I, m, args, kwargs):
        if isinstance(m.obj, ND) and m.name in ('ravel', 'flatten') and not args:
            return m.obj.flat()
        if isinstance(m.obj, Ap) and m.obj.name == 'same' and m.name == 'all':
            x, y = m.obj.args
            i = z3.Int(self.ctx.fresh('i'))
            return SBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < x.r * x.c), x.el(i) == y.el(i))))
        return IDomain.call_method(self, I, m, args, kwargs)

    def find(self, cls, name):
        return od.ODomain.find(self, cls, name)

    def equal(self, I, a, b):
        if isinstance(a, ND) and isinstance(b, ND):
            self.prove('arrays of equal shape are compared', z3.And(a.r == b.r, a.c == b.c))
            return Ap('same', [a, b])
        return IDomain.equal(self, I, a, b)

    def is_none(self, I, o):
        return False


def t_matrix(ctx):
    D = XDomain(ctx)
    I = IInterp(ctx, D)
    x, a = D.matrix('x')
    y, b = D.matrix('y')
    e = D._method(I, MA.Matrix.__eq__, x, [y], {})
    i = z3.Int('ie!')
    same = z3.And(a.r == b.r, a.c == b.c, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.r * a.c), a.el(i) == b.el(i))))
    D.prove('equal iff same shape and equal entries', tru(e) == same)
    ne = D._method(I, D.find(MA.Matrix, '__ne__')[1], x, [y], {})
    if ne is NotImplemented:
        D.prove('!= is defined', z3.BoolVal(False))
    else:
        D.prove('!= is the negation of ==', tru(ne) == z3.Not(tru(e)))
    D.prove('not equal to something else', z3.Not(tru(D._method(I, MA.Matrix.__eq__, x, ['a string'], {}))))
    k = [I.call_python(unwrap(MA.Matrix._get_instance_key), [MA.Matrix, (m,), {}], {}) for m in (a, b)]
    D.prove('equal keys iff equal matrices', eqv(k[0], k[1]) == same)
    h = [D._method(I, MA.Matrix.__hash__, o, [], {}) for o in (x, y)]
    D.prove('equal matrices have equal hashes', z3.Implies(same, eqv(h[0], h[1])))


def eq_tasks():
    yield 'Matrix.__eq__, __hash__, _get_instance_key', t_matrix, where(MA.Matrix.__eq__)
    yield 'Expression._get_instance_key', t_key, where(unwrap(Expression._get_instance_key))
    src = {'operator': Expression.__eq__, 'scalar': SC.Scalar.__eq__, 'space': Expression.__eq__, 'circuit': Expression.__eq__, 'ScalarValue': SC.ScalarValue.__eq__,
           'Zero': type(SC.Zero).__eq__, 'One': type(SC.One).__eq__, 'multiple': OP.ScalarTimesOperator.__eq__}
    for k in KINDS:
        if k not in ('number', 'foreign'):
            yield 'equality.%s' % k, t_equality(k), where(unwrap(src[k]))
            yield 'hash.%s' % k, t_hash(k), where(unwrap(src[k]))


def tasks():
    yield from eq_tasks()
    for K, mk in table():
        if K.__name__ == 'SpinOperator':  # abstract
            continue
        f = next(k.__dict__['__init__'] for k in K.__mro__ if '__init__' in k.__dict__)
        yield 'reconstruct.%s' % K.__name__, t_reconstruct(K, mk), where(f)
        yield 'determine.%s' % K.__name__, t_determine(K, mk), where(f)


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
