"""Contracts of the Hilbert-space algebra (C11).

A local space is an atom; a Hilbert space is a finite set of atoms (the
trivial space is the empty set, a ProductSpace a set of at least two atoms),
or the full space, which contains everything.  Argument lists are known by
their contents (Bag): the atoms given directly, the products and their union,
plain labels, and whether the trivial or the full space occurs."""
import sys
import ast
import types
from pyvc import live   # noqa: F401
import z3
import importlib
from pyvc import od
from pyvc.od import zi, SInt, SBool, Obj
from pyvc.engine import PyRaise, BoundMethod, Sym, Unsupported, Obligation, PathEnd, Infeasible, _Star, _Return, Env, SymStr
from pyvc.source import where, unwrap
HS = importlib.import_module('qnet.algebra.core.hilbert_space_algebra')
AA = importlib.import_module('qnet.algebra.core.abstract_algebra')
AP = importlib.import_module('qnet.algebra.core.algebraic_properties')
EX = importlib.import_module('qnet.algebra.core.exceptions')

A = z3.DeclareSort('Atom')
SetA = z3.ArraySort(A, z3.BoolSort())
EMPTY = z3.K(A, z3.BoolVal(False))
ISSTR = z3.Function('is_str_label', A, z3.BoolSort())
X, Y = z3.Consts('x_ y_', A)
T, F = z3.BoolVal(True), z3.BoolVal(False)


def union(a, b):
    return a if b is EMPTY else b if a is EMPTY else z3.SetUnion(a, b)


def single(a):
    return z3.Store(EMPTY, a, T)


def two(s):
    return z3.Exists([X, Y], z3.And(s[X], s[Y], X != Y))


class Sp(Sym):
    """a local space (atom) or a product (set)"""

    def __init__(self, atom=None, set_=None):
        self.atom, self.set = atom, single(atom) if atom is not None else set_

    @property
    def cls(self):
        return HS.LocalSpace if self.atom is not None else HS.ProductSpace


class Label(Sym):
    def __init__(self, atom):
        self.atom = atom


class Str(Sym):
    """a plain label given in place of the local space with that label"""

    def __init__(self, atom):
        self.atom = atom


class Bag(Sym):
    def __init__(self, kind, atoms=EMPTY, strs=EMPTY, prods=F, union_=EMPTY, triv=F, full=F, distinct=False, n=None):
        self.kind, self.atoms, self.strs, self.prods, self.union = kind, atoms, strs, prods, union_
        self.triv, self.full, self.distinct, self.n = triv, full, distinct, n

    def total(self):
        return union(union(self.atoms, self.strs), self.union)

    def but(self, **kw):
        d = dict(atoms=self.atoms, strs=self.strs, prods=self.prods, union_=self.union, triv=self.triv, full=self.full,
                 distinct=self.distinct, n=self.n, kind=self.kind)
        d.update(kw)
        return Bag(**d)


class BagMap(Sym):
    """results of a comprehension per kind of element"""

    def __init__(self, bag, res):
        self.bag, self.res = bag, res


class SpInterp(od.OInterp):
    def _bind(self, node, args, kwargs, defaults, kwdefaults, name):
        n = len(node.args.posonlyargs + node.args.args)
        if node.args.vararg and len(args) == n + 1 and isinstance(args[-1], Bag):
            d = super()._bind(node, args[:-1], kwargs, defaults, kwdefaults, name)
            d[node.args.vararg.arg] = args[-1]
            return d
        return super()._bind(node, args, kwargs, defaults, kwdefaults, name)

    def getitem(self, o, i):
        if isinstance(o, dict) and isinstance(i, Key):
            raise PyRaise(KeyError, '')
        return super().getitem(o, i)

    def setitem(self, o, i, v):
        if isinstance(i, Key):
            return
        return super().setitem(o, i, v)


class Key(Sym):
    pass


class SpDomain(od.ODomain):
    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.classes[HS.LocalSpace] = c_local
        self.classes[HS.ProductSpace] = c_product
        self.contracts[unwrap(AA.Expression._get_instance_key)] = lambda D, I, a, kw: Key()
        self.contracts[unwrap(HS.ProductSpace.create)] = c_create

    def set_of(self, v):
        """set of a space that is not the full space"""
        if v is HS.TrivialSpace:
            return EMPTY
        if isinstance(v, Sp):
            return v.set
        raise Unsupported('space expected: %r' % (v,))

    # ---------------------------------------------------------- values
    def local(self, name='a'):
        return Sp(atom=z3.Const(self.ctx.fresh(name), A))

    def product(self, name='P'):
        s = z3.Const(self.ctx.fresh(name), SetA)
        self.ctx.assume(two(s))
        return Sp(set_=s)

    def any_space(self, label):
        k = self.ctx.choose(4, label)
        return [lambda: HS.TrivialSpace, lambda: HS.FullSpace, self.local, self.product][k]()

    def size(self, b):
        if b.n is not None:
            return b.n
        n = z3.Int(self.ctx.fresh('len'))
        t = b.total()
        nonempty = z3.Or(b.triv, b.full, b.prods, z3.Exists([X], t[X]))
        self.ctx.assume(z3.And(n >= 0, (n > 0) == nonempty))
        many = z3.Or(z3.And(b.triv, z3.Or(b.full, b.prods, z3.Exists([X], union(b.atoms, b.strs)[X]))), two(union(b.atoms, b.strs)),
                     z3.And(b.prods, z3.Exists([X], union(b.atoms, b.strs)[X])))
        self.ctx.assume(z3.Implies(many, n >= 2))
        if b.distinct:
            self.ctx.assume(z3.Implies(z3.And(z3.Not(b.prods), z3.Not(b.full)), (n >= 2) == many))
        b.n = n
        return n

    # ---------------------------------------------------------- protocol
    def length(self, I, o):
        if isinstance(o, Bag):
            return SInt(self.size(o))
        if isinstance(o, Sp):
            return I.call_python(HS.HilbertSpace.__len__, [o], {})
        return od.ODomain.length(self, I, o)

    def keep_star(self, v):
        return isinstance(v, Bag) or od.ODomain.keep_star(self, v)

    def truth(self, I, v):
        if isinstance(v, Bag):
            return self.ctx.branch(self.size(v) > 0, 'nonempty')
        if isinstance(v, Sp):
            return True
        return od.ODomain.truth(self, I, v)

    def isinstance(self, I, o, c):
        if isinstance(o, Sp):
            return issubclass(o.cls, c)
        if isinstance(o, Label):
            if c is HS.StrLabel:
                return SBool(ISSTR(o.atom))
            raise Unsupported('isinstance of a label')
        if isinstance(o, Str):
            return not issubclass(c, AA.Expression) and (c is object or (c is str and self.ctx.choose(2, 'label is a string') == 1)) \
                if c in (str, int, object) or issubclass(c, (AA.Expression, HS.HilbertSpace)) else False
        if isinstance(o, Bag):
            return c is {'list': list, 'tuple': tuple, 'set': set}[o.kind]
        return od.ODomain.isinstance(self, I, o, c)

    def is_(self, I, a, b):
        if isinstance(a, (Sp, Bag, Label, Str)) or isinstance(b, (Sp, Bag, Label, Str)):
            return a is b
        return od.ODomain.is_(self, I, a, b)

    def equal(self, I, a, b):
        sp = (HS.TrivialSpace, HS.FullSpace)
        if isinstance(a, Sp) or isinstance(b, Sp):
            if isinstance(a, Sp) and isinstance(b, Sp):
                if (a.atom is None) != (b.atom is None):
                    return False
                return SBool(a.atom == b.atom if a.atom is not None else a.set == b.set)
            return False
        if isinstance(a, Bag) and isinstance(b, Bag) and a.kind == b.kind == 'set':
            self.plain(a), self.plain(b)
            return SBool(a.atoms == b.atoms)
        return od.ODomain.equal(self, I, a, b)

    def getattr(self, I, o, name):
        if isinstance(o, Sp):
            if name == 'operands' and o.atom is None:
                return Bag('tuple', atoms=o.set, distinct=True)
            if name == 'label' and o.atom is not None:
                return Label(o.atom)
            f = self.find(o.cls, name)
            if f is None:
                raise PyRaise(AttributeError, name)
            if isinstance(f[1], property):
                return I.call_python(f[1].fget, [o], {}, f[0])
            return BoundMethod(o, name)
        if isinstance(o, (Bag, Label, Str)):
            return BoundMethod(o, name)
        return od.ODomain.getattr(self, I, o, name)

    def call_method(self, I, m, args, kwargs):
        o = m.obj
        if isinstance(o, Sp):
            k, f = self.find(o.cls, m.name)
            return self._method(I, f, o, args, kwargs, k)
        if isinstance(o, Bag):
            return self.bag_method(I, o, m.name, args)
        return od.ODomain.call_method(self, I, m, args, kwargs)

    def plain(self, b):
        """a set of local spaces"""
        b = self.to_bag(b)
        for c in (b.prods, b.triv, b.full, z3.Exists([X], b.strs[X]) if b.strs is not EMPTY else F):
            if not self.entails(z3.Not(c)):
                raise Unsupported('set of spaces that are not all local')
        return b

    def to_bag(self, b):
        if isinstance(b, Bag):
            return b
        if isinstance(b, (set, frozenset, tuple, list)):
            r = Bag('set', distinct=True)
            for x in b:
                if isinstance(x, Sp) and x.atom is not None:
                    r = r.but(atoms=union(r.atoms, x.set))
                elif x is HS.TrivialSpace:
                    r = r.but(triv=T)
                elif x is HS.FullSpace:
                    r = r.but(full=T)
                elif isinstance(x, Str):
                    r = r.but(strs=union(r.strs, single(x.atom)))
                elif isinstance(x, Sp):
                    r = r.but(prods=T, union_=union(r.union, x.set))
                else:
                    raise Unsupported('element %r' % (x,))
            return r
        raise Unsupported('collection expected: %r' % (b,))

    def bag_method(self, I, o, nm, args):
        if o.kind != 'set':
            raise Unsupported('method %s' % nm)
        # a singleton other than a local space may be taken away: no effect on atoms
        b = self.to_bag(args[0])
        a = self.plain(o)
        if nm == 'difference':
            return Bag('set', atoms=z3.SetDifference(a.atoms, b.atoms), distinct=True)
        if nm == 'intersection':
            return Bag('set', atoms=z3.SetIntersect(a.atoms, b.atoms), distinct=True)
        self.plain(b)
        if nm == 'union':
            return Bag('set', atoms=union(a.atoms, b.atoms), distinct=True)
        if nm == 'isdisjoint':
            return SBool(z3.Not(z3.Exists([X], z3.And(a.atoms[X], b.atoms[X]))))
        if nm == 'issubset':
            return SBool(z3.ForAll([X], z3.Implies(a.atoms[X], b.atoms[X])))
        raise Unsupported('set method %s' % nm)

    def compare(self, I, name, a, b):
        if isinstance(a, Bag) and isinstance(b, Bag) and a.kind == b.kind == 'set':
            a, b = self.plain(a), self.plain(b)
            if name in ('>', '>='):
                a, b, name = b, a, '<' if name == '>' else '<='
            sub = z3.ForAll([X], z3.Implies(a.atoms[X], b.atoms[X]))
            return SBool(sub if name == '<=' else z3.And(sub, z3.Exists([X], z3.And(b.atoms[X], z3.Not(a.atoms[X])))))
        sp = (HS.TrivialSpace, HS.FullSpace)
        if (isinstance(a, Sp) or a in sp) and (isinstance(b, Sp) or b in sp):
            m = {'<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__'}[name]
            if isinstance(a, Sp):
                k, f = self.find(a.cls, m)
                return self._method(I, f, a, [b], {}, k)
            k, f = self.find(type(a), m)
            return I.call_python(unwrap(f), [a, b], {}, k)
        return od.ODomain.compare(self, I, name, a, b)

    def binop(self, I, name, a, b):
        if isinstance(a, Bag) and isinstance(b, Bag) and a.kind == 'set':
            return self.bag_method(I, a, {'-': 'difference', '&': 'intersection', '|': 'union'}[name], [b])
        m = {'*': '__mul__', '/': '__truediv__', '&': '__and__'}.get(name)
        sp = (HS.TrivialSpace, HS.FullSpace)
        if m and (isinstance(a, Sp) or a in sp):
            k, f = self.find(a.cls if isinstance(a, Sp) else type(a), m)
            return self._method(I, f, a, [b], {}, k) if isinstance(a, Sp) else I.call_python(unwrap(f), [a, b], {}, k)
        return od.ODomain.binop(self, I, name, a, b)

    def fl_contains(self, I, c, x):
        raise Unsupported('membership')

    def contains(self, I, c, x):
        if isinstance(c, Bag):
            b = self.plain(c)
            if isinstance(x, Sp):
                return SBool(b.atoms[x.atom]) if x.atom is not None else False
            return False
        return od.ODomain.contains(self, I, c, x)

    def make_set(self, I, v):
        b = self.to_bag(v)
        return b.but(kind='set', distinct=True, n=None)

    def iterate(self, I, o):
        if isinstance(o, Sp):
            raise PyRaise(TypeError, 'a space is not iterable')
        return od.ODomain.iterate(self, I, o)

    def set_method(self, I, *a):
        i = next(k for k, x in enumerate(a) if isinstance(x, (set, frozenset)))
        nm = next(x for x in a if isinstance(x, str))
        args = next(x for x in a[i + 1:] if isinstance(x, (list, tuple)))
        return self.bag_method(I, self.to_bag(a[i]).but(kind='set'), nm, args)

    # ---------------------------------------------------------- comprehensions
    def comp(self, I, e, env):
        g = e.generators[0]
        it = I.eval(g.iter, env)
        if not isinstance(it, Bag) or len(e.generators) > 1:
            return self._comp_concrete(I, e, env, it)
        res = {}
        for k, mk, present in self.kinds(it):
            d0 = len(self.ctx.decisions)
            x = mk()
            sub = Env({}, env, env.globs)
            I.assign(g.target, x, sub)
            keep = True
            for t in g.ifs:
                v = I.eval(t, sub)
                if isinstance(v, SBool):
                    raise Unsupported('filter that depends on the element')
                keep = keep and I.truth(v)
            res[k] = (x, I.eval(e.elt, sub) if keep else DROP, present)
            if len(self.ctx.decisions) != d0:
                raise Unsupported('case distinction inside a comprehension')
        return self.collect(it, res)

    def kinds(self, b):
        ex = lambda s: z3.Exists([X], s[X]) if s is not EMPTY else F
        out = [('atoms', lambda: Sp(atom=z3.Const(self.ctx.fresh('e'), A)), ex(b.atoms)), ('strs', lambda: Str(z3.Const(self.ctx.fresh('e'), A)), ex(b.strs)),
               ('prods', lambda: Sp(set_=z3.Const(self.ctx.fresh('E'), SetA)), b.prods), ('triv', lambda: HS.TrivialSpace, b.triv),
               ('full', lambda: HS.FullSpace, b.full)]
        return [o for o in out if not z3.is_false(z3.simplify(o[2]))]

    def collect(self, b, res):
        new = Bag('list', distinct=b.distinct)
        flags = []
        for k, (x, y, p) in res.items():
            if isinstance(y, (bool, SBool)):
                flags.append((x, y, p))
                continue
            if y is DROP:
                continue
            wrap = isinstance(y, tuple) and len(y) == 1
            z = y[0] if wrap else y
            if k == 'strs' and isinstance(z, Sp) and z.atom is not None and z.atom.eq(x.atom):
                new = new.but(atoms=union(new.atoms, b.strs), distinct=False)
            elif z is x:
                new = new.but(**{'atoms': dict(atoms=union(new.atoms, b.atoms)), 'strs': dict(strs=b.strs), 'prods': dict(prods=b.prods, union_=b.union),
                                 'triv': dict(triv=b.triv), 'full': dict(full=b.full)}[k])
            elif k == 'prods' and isinstance(z, Bag) and z.atoms.eq(x.set) and not wrap:
                new = new.but(atoms=union(new.atoms, b.union), distinct=False)
                wrap = True
            else:
                raise Unsupported('comprehension result %r' % (y,))
            new.tuples = wrap
            flags.append(wrap)
        if flags and isinstance(flags[0], tuple):
            r = BagMap(b, flags)
            return r
        if len(set(flags)) > 1:
            raise Unsupported('mixed comprehension')
        new.tuples = bool(flags and flags[0])
        return new

    def pre_call(self, I, f, args, kwargs):
        if f is sum and len(args) == 2 and isinstance(args[0], Bag) and getattr(args[0], 'tuples', False) and args[1] == ():
            return args[0].but(kind='tuple', distinct=False, n=None)
        if f is sum and len(args) == 2 and isinstance(args[0], Bag) and args[1] == ():
            t = args[0].total()
            self.prove('nothing to add', z3.Not(z3.Or(args[0].prods, args[0].triv, args[0].full, z3.Exists([X], t[X]))))
            return ()
        if f in (any, all) and isinstance(args[0], BagMap):
            b, o = args[0], []
            for x, y, p in b.res:
                v = y.t if isinstance(y, SBool) else z3.BoolVal(y)
                if isinstance(y, SBool):
                    raise Unsupported('condition that depends on the element')
                o.append(z3.And(p, v) if f is any else z3.Implies(p, v))
            return SBool(z3.Or(o) if f is any else z3.And(o))
        if f in (any, all) and isinstance(args[0], Bag) and not self.kinds(args[0]):
            return f is all
        if f is sorted and isinstance(args[0], (Bag, set)):
            b = self.to_bag(args[0])
            return b.but(kind='list')
        if f in (set, frozenset, list, tuple) and args and isinstance(args[0], Bag):
            return args[0].but(kind=f.__name__, distinct=args[0].distinct or f in (set, frozenset), n=args[0].n if f in (list, tuple) else None)
        if f in (set, frozenset) and args and isinstance(args[0], (tuple, list)) and any(isinstance(x, Sp) for x in args[0]):
            return self.make_set(I, args[0])
        if isinstance(f, types.MethodType) and f.__self__ in (HS.TrivialSpace, HS.FullSpace) and any(isinstance(x, Sp) for x in args):
            return I.call_python(f.__func__, [f.__self__] + list(args), kwargs)
        return od.ODomain.pre_call(self, I, f, args, kwargs)

    def o_getitem(self, I, o, i):
        if isinstance(o, Bag):
            if i == 0 and not isinstance(i, SInt):
                self.given('list is not empty', self.size(o) > 0)
                ks = self.kinds(o)
                for k, mk, p in ks:
                    if self.ctx.branch(p, 'first element: ' + k):
                        x = mk()
                        if k == 'atoms':
                            self.ctx.assume(o.atoms[x.atom])
                            self.ctx.assume(z3.Implies(z3.And(self.size(o) == 1), z3.ForAll([Y], o.total()[Y] == (Y == x.atom))))
                        elif k == 'triv':
                            self.ctx.assume(z3.Implies(self.size(o) == 1, z3.ForAll([Y], z3.Not(o.total()[Y]))))
                        else:
                            raise Unsupported('element of kind ' + k)
                        return x
                raise Infeasible()
            raise Unsupported('element of a collection')
        return NotImplemented

    def for_hook(self, I, s, env, it):
        if isinstance(it, Bag):
            return lambda: self.search_loop(I, s, env, it)
        return od.ODomain.for_hook(self, I, s, env, it)

    def search_loop(self, I, s, env, it):
        """for x in bag: if test(x): return ..."""
        b = s.body
        if len(b) != 1 or not isinstance(b[0], ast.If) or b[0].orelse or not isinstance(b[0].body[-1], ast.Return) or s.orelse or not isinstance(s.target, ast.Name):
            raise Unsupported('loop at line %d has no invariant' % s.lineno)
        it = self.plain(it)
        x = self.local('w')
        I.assign(s.target, x, env)
        v = I.eval(b[0].test, env)
        c = v.t if isinstance(v, SBool) else z3.BoolVal(bool(I.truth(v)))
        some = z3.Exists([x.atom], z3.And(it.atoms[x.atom], c))
        if self.ctx.branch(some, 'some element'):
            self.ctx.assume(z3.And(it.atoms[x.atom], c))
            I.exec_block(b[0].body, env)


class _Drop:
    pass


DROP = _Drop()




def c_local(D, I, a, kw):
    if isinstance(a[0], Str):
        return Sp(atom=a[0].atom)
    raise Unsupported('local space of %r' % (a[0],))


def c_product(D, I, a, kw):
    b = a[0] if len(a) == 1 and isinstance(a[0], Bag) else D.to_bag(tuple(a))
    D.prove('factors are local spaces', z3.Not(z3.Or(b.prods, b.triv, b.full, z3.Exists([X], b.strs[X]))))
    D.prove('factors are distinct', z3.BoolVal(bool(b.distinct)))
    D.prove('at least two factors', two(b.atoms))
    return Sp(set_=b.atoms)


def spaces_of(D, args):
    """(contains the full space, union of the sets)"""
    b = args[0] if len(args) == 1 and isinstance(args[0], Bag) else D.to_bag(tuple(args))
    return b


def c_create(D, I, a, kw):
    """contract of ProductSpace.create: the union"""
    b = spaces_of(D, a[1:] if a and isinstance(a[0], type) else a)
    if D.ctx.branch(b.full, 'full space among the arguments'):
        return HS.FullSpace
    t = b.total()
    if D.ctx.branch(two(t), 'two factors'):
        return Sp(set_=t)
    x = z3.Const(D.ctx.fresh('one'), A)
    if D.ctx.branch(z3.Exists([X], t[X]), 'one factor'):
        D.ctx.assume(z3.ForAll([Y], t[Y] == (Y == x)))
        return Sp(atom=x)
    D.ctx.assume(z3.ForAll([Y], z3.Not(t[Y])))
    return HS.TrivialSpace


def setup(ctx):
    D = SpDomain(ctx)
    return D, SpInterp(ctx, D)


def is_set(D, name, r, want):
    """the space r is the set `want`"""
    if r is HS.FullSpace or not (isinstance(r, Sp) or r is HS.TrivialSpace):
        D.prove(name + ': a space that is not full', z3.BoolVal(False))
        return
    s = D.set_of(r)
    D.prove(name, z3.ForAll([Y], s[Y] == want[Y]))
    if isinstance(r, Sp) and r.atom is None:
        D.prove(name + ': canonical', two(s))


def full(v):
    return v is HS.FullSpace


def t_create(ctx):
    D, I = setup(ctx)
    D.contracts.pop(unwrap(HS.ProductSpace.create))
    c = lambda nm, s: z3.Const(ctx.fresh(nm), s)
    b = Bag('tuple', c('atoms', SetA), c('labels', SetA), c('products', z3.BoolSort()), c('inproducts', SetA), c('trivial', z3.BoolSort()), c('full', z3.BoolSort()))
    ctx.assume(z3.If(b.prods, two(b.union), z3.ForAll([Y], z3.Not(b.union[Y]))))
    r = I.call_python(unwrap(HS.ProductSpace.create), [HS.ProductSpace, b], {}, HS.ProductSpace)
    if ctx.branch(b.full, 'full'):
        D.prove('full space', z3.BoolVal(r is HS.FullSpace))
        return
    is_set(D, 'union of the arguments', r, b.total())


def binary(nm, spec):
    def t(ctx):
        D, I = setup(ctx)
        a, b = D.any_space('self'), D.any_space('other')
        if isinstance(a, Sp):
            k, f = D.find(a.cls, nm)
        else:
            k, f = D.find(type(a), nm)
        try:
            r = I.call_python(unwrap(f), [a, b], {}, k)
        except PyRaise as e:
            if issubclass(e.exc_type, EX.AlgebraError):
                D.prove('undefined only for the full space', z3.BoolVal(full(a) and nm in ('remove', '__truediv__')))
                return
            raise
        spec(D, a, b, r)
    return t


def s_tensor(D, a, b, r):
    if full(a) or full(b):
        D.prove('full', z3.BoolVal(r is HS.FullSpace))
    else:
        is_set(D, 'union', r, union(D.set_of(a), D.set_of(b)))


def s_remove(D, a, b, r):
    D.prove('defined', z3.BoolVal(not full(a)))
    if not full(a):
        is_set(D, 'difference', r, EMPTY if full(b) else z3.SetDifference(D.set_of(a), D.set_of(b)))


def s_intersect(D, a, b, r):
    if full(a) and full(b):
        D.prove('full', z3.BoolVal(r is HS.FullSpace))
    else:
        s = D.set_of(b) if full(a) else D.set_of(a) if full(b) else z3.SetIntersect(D.set_of(a), D.set_of(b))
        is_set(D, 'intersection', r, s)


def boolean(D, name, r, want):
    t = r.t if isinstance(r, SBool) else z3.BoolVal(bool(r)) if isinstance(r, bool) else None
    if t is None:
        raise Unsupported('truth value expected')
    D.prove(name, t == want)


def s_disjoint(D, a, b, r):
    if full(a) or full(b):
        return boolean(D, 'never disjoint from the full space', r, F)
    s, t = D.set_of(a), D.set_of(b)
    boolean(D, 'disjoint', r, z3.And(z3.Not(z3.Exists([X], z3.And(s[X], t[X]))), z3.Not(z3.Exists([X], z3.And(z3.Or(s[X], t[X]), ISSTR(X))))))


def sub(D, a, b):
    """a contained in b"""
    if full(b):
        return T
    if full(a):
        return F
    s, t = D.set_of(a), D.set_of(b)
    return z3.ForAll([X], z3.Implies(s[X], t[X]))


def same(D, a, b):
    if full(a) or full(b):
        return z3.BoolVal(full(a) and full(b))
    s, t = D.set_of(a), D.set_of(b)
    return z3.ForAll([X], s[X] == t[X])


def order(f, name):
    def spec(D, a, b, r):
        boolean(D, name, r, f(D, a, b))
    return spec


def t_factors(ctx):
    """local_factors are the atoms"""
    D, I = setup(ctx)
    a = [HS.TrivialSpace, D.local(), D.product()][ctx.choose(3, 'space')]
    if isinstance(a, Sp):
        k, f = D.find(a.cls, 'local_factors')
    else:
        k, f = D.find(type(a), 'local_factors')
    r = D.to_bag(I.call_python(f.fget, [a], {}, k))
    D.prove('factors', z3.ForAll([X], r.atoms[X] == D.set_of(a)[X]))
    D.prove('nothing else', z3.Not(z3.Or(r.prods, r.triv, r.full, z3.Exists([X], r.strs[X]))))


HSB = HS.HilbertSpace
lt = order(lambda D, a, b: z3.And(sub(D, a, b), z3.Not(same(D, a, b))), 'strictly contained')
le = order(lambda D, a, b: sub(D, a, b), 'contained')
gt = order(lambda D, a, b: z3.And(sub(D, b, a), z3.Not(same(D, a, b))), 'strictly contains')
ge = order(lambda D, a, b: sub(D, b, a), 'contains')


def METHODS():
    yield 'ProductSpace.create', t_create, where(HS.ProductSpace.create)
    yield 'local_factors', t_factors, where(HS.ProductSpace.local_factors.fget)
    for nm, s in (('tensor', s_tensor), ('__mul__', s_tensor), ('remove', s_remove), ('__truediv__', s_remove), ('intersect', s_intersect), ('__and__', s_intersect),
                  ('isdisjoint', s_disjoint), ('is_strict_subfactor_of', lt), ('is_strict_tensor_factor_of', lt), ('is_tensor_factor_of', le),
                  ('__lt__', lt), ('__le__', le), ('__gt__', gt), ('__ge__', ge)):
        yield 'HilbertSpace.' + nm, binary(nm, s), where(getattr(HSB, nm)) if nm not in ('remove', 'intersect', 'is_strict_subfactor_of') else where(getattr(HS.ProductSpace, nm))


def tasks():
    yield from METHODS()


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
