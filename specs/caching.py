"""Contracts of the caching of expressions and of the temporary settings (C15).

Context managers: run for an arbitrary list of classes (repetitions and inherited
attributes included) with an arbitrary body that may change every attribute and
may raise; afterwards every class has the attributes it had before.

Expression.create: run for an arbitrary class, arbitrary arguments, a cache that
satisfies the cache invariant (every entry is the result of simplifying the
arguments it is stored under) and a list of simplifications of any length; the
result does not depend on the contents of the cache and the invariant is kept."""
import importlib
import inspect
from pyvc import live   # noqa: F401
import z3
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, Term, Loop, FSet
from pyvc.engine import PyRaise, BoundMethod, Unsupported, Infeasible
from pyvc.domain import Sym
from pyvc.source import where, unwrap
TC = importlib.import_module('qnet.algebra.toolbox.core')
AA = importlib.import_module('qnet.algebra.core.abstract_algebra')
Expression = AA.Expression

CLS = z3.DeclareSort('Class')
REF = z3.DeclareSort('Container')
CONTENT = z3.DeclareSort('Content')
OPT = z3.Datatype('OwnAttribute')
OPT.declare('none')
OPT.declare('some', ('val', REF))
OPT = OPT.create()
CONT = z3.Function('content', REF, CONTENT)
NOTHING = z3.Const('empty_content', CONTENT)
OLD = z3.Function('existed_before', REF, z3.BoolSort())
ATTRS = ('_instances', 'simplifications', '_rules', '_binary_rules')
# an arbitrary class: what is shown for it holds for every class
C = z3.Const('some_class', CLS)


class Vars(Sym):
    def __init__(self, cls):
        self.cls = cls


class Manager(Sym):
    """temporary_instance_cache(*classes), by contract"""

    def __init__(self, classes):
        self.classes = classes


class CInterp(od.OInterp):
    def _bind(self, node, args, kwargs, defaults, kwdefaults, name):
        n = len(node.args.posonlyargs + node.args.args)
        if node.args.vararg and len(args) == n + 1 and isinstance(args[-1], FL):
            d = super()._bind(node, args[:-1], kwargs, defaults, kwdefaults, name)
            d[node.args.vararg.arg] = args[-1]
            return d
        return super()._bind(node, args, kwargs, defaults, kwdefaults, name)

    def e_Yield(self, e, env):
        if e.value is not None:
            raise Unsupported('value of a context manager')
        self.dom.at_yield(self)


class SetDomain(od.ODomain):
    """class attributes as a mutable store"""

    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.own = {a: z3.Const(ctx.fresh('own' + a), z3.ArraySort(CLS, OPT)) for a in ATTRS}
        self.own0 = dict(self.own)
        self.raised = False
        self.body = None                  # store at the end of the body
        self.flag = z3.Bool(ctx.fresh('instance_caching'))
        self.flag0 = self.flag
        self.contracts[vars] = lambda D, I, a, kw: Vars(a[0])
        self.contracts[setattr] = lambda D, I, a, kw: D.setattr(I, *a)
        self.contracts[delattr] = lambda D, I, a, kw: D.delattr(I, *a)
        self.contracts[getattr] = c_getattr
        self.contracts[unwrap(AA._cached_classes)] = lambda D, I, a, kw: D.cached
        self.contracts[unwrap(TC.temporary_instance_cache)] = lambda D, I, a, kw: Manager(list(a))
        # iterating over all existing classes
        self.cached, self.K = self.classlist('cached', True)
        for a in ATTRS:
            s = z3.Select(self.own[a], C)
            ctx.assume(z3.Implies(OPT.is_some(s), OLD(OPT.val(s))))

    def classlist(self, name, own=False):
        """any list of classes; F = position of the first occurrence of C, n if absent"""
        n = self.int(name + '_n', lo=0)
        f = z3.Function(self.ctx.fresh(name), z3.IntSort(), CLS)
        F = z3.Int(self.ctx.fresh('first_' + name))
        self.ctx.assume(z3.And(F >= 0, F <= zi(n), z3.Implies(F < zi(n), f(F) == C)))

        def get(i):
            i = zi(i)
            self.ctx.assume(z3.Implies(z3.And(i >= 0, i < zi(n), f(i) == C), F <= i))
            if own:
                self.ctx.assume(z3.Implies(z3.And(i >= 0, i < zi(n)), OPT.is_some(z3.Select(self.own0['_instances'], f(i)))))
            return Term(f(i))
        fl = FL(zi(n), get, 'tuple')
        fl.F = F
        return fl, F

    def new(self, content=None):
        r = z3.Const(self.ctx.fresh('new'), REF)
        self.ctx.assume(z3.Not(OLD(r)))
        self.ctx.assume(CONT(r) == (NOTHING if content is None else content))
        return Term(OPT.some(r))

    def cls(self, o):
        if isinstance(o, Term) and o.t.sort() == CLS:
            return o.t
        raise Unsupported('class expected: %r' % (o,))

    def opt(self, v):
        if isinstance(v, Term) and v.t.sort() == OPT:
            return v.t
        if v is None:
            return OPT.none
        if isinstance(v, (dict, list)) and not v:
            return self.new().t
        raise Unsupported('attribute value %r' % (v,))

    def setattr(self, I, o, name, v):
        if o is Expression and name == 'instance_caching':
            self.flag = v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))
            return
        if name not in ATTRS:
            raise Unsupported('class attribute %s' % (name,))
        t = self.opt(v)
        self.prove('a container is stored', OPT.is_some(t))
        self.own[name] = z3.Store(self.own[name], self.cls(o), t)

    native_setattr = setattr

    def delattr(self, I, o, name):
        s = z3.Select(self.own[name], self.cls(o))
        if not I.truth(SBool(OPT.is_some(s))):
            raise PyRaise(AttributeError, name)
        self.own[name] = z3.Store(self.own[name], self.cls(o), OPT.none)

    def term_attr(self, I, o, name):
        if o.t.sort() == OPT:
            return BoundMethod(o, name)
        if name not in ATTRS:
            raise Unsupported('class attribute %s' % (name,))
        s = z3.Select(self.own[name], o.t)
        if I.truth(SBool(OPT.is_some(s))):
            return Term(s)
        if name.endswith('rules') and self.ctx.choose(2, 'no attribute ' + name):
            raise PyRaise(AttributeError, name)
        r = z3.Const(self.ctx.fresh('inherited'), REF)
        return Term(OPT.some(r))

    def native_getattr(self, I, o, name):
        if o is Expression and name == 'instance_caching':
            return SBool(self.flag)
        return od.ODomain.native_getattr(self, I, o, name)

    def getattr(self, I, o, name):
        if isinstance(o, Vars):
            return BoundMethod(o, name)
        return od.ODomain.getattr(self, I, o, name)

    def call_method(self, I, m, args, kwargs):
        if isinstance(m.obj, Vars) and m.name in ('get', '__getitem__'):
            if len(args) > 1 and args[1] is not None:
                raise Unsupported('default')
            return Term(z3.Select(self.own[args[0]], self.cls(m.obj.cls)))
        if isinstance(m.obj, Term) and m.obj.t.sort() == OPT and m.name == 'clear' and self.body is None and hasattr(self, 'cleared'):
            self.cleared = z3.Or(self.cleared, m.obj.t == z3.Select(self.own['_instances'], C))
            return None
        if isinstance(m.obj, Term) and m.obj.t.sort() == OPT and m.name == 'copy':
            return self.new(CONT(OPT.val(m.obj.t)))
        return od.ODomain.call_method(self, I, m, args, kwargs)

    def contains(self, I, c, x):
        if isinstance(c, Vars):
            return SBool(OPT.is_some(z3.Select(self.own[x], self.cls(c.cls))))
        return od.ODomain.contains(self, I, c, x)

    def is_none(self, I, o):
        if isinstance(o, Term) and o.t.sort() == OPT:
            return SBool(OPT.is_none(o.t))
        return False if isinstance(o, Term) else od.ODomain.is_none(self, I, o)

    def havoc(self, I, env, sp, names, mut):
        od.ODomain.havoc(self, I, env, sp, names, mut)
        if hasattr(self, 'cleared'):
            self.cleared = z3.Bool(self.ctx.fresh('cleared'))
            return
        for a in ATTRS:
            self.own[a] = z3.Const(self.ctx.fresh('own' + a), z3.ArraySort(CLS, OPT))

    def with_stmt(self, I, s, env):
        if len(s.items) != 1:
            raise Unsupported('with')
        m = I.eval(s.items[0].context_expr, env)
        if not isinstance(m, Manager) or len(m.classes) != 1 or not isinstance(m.classes[0], FL):
            raise Unsupported('context manager %r' % (m,))
        F, n = m.classes[0].F, zi(m.classes[0].n)
        before = self.own['_instances']
        inside = z3.Const(self.ctx.fresh('inner'), z3.ArraySort(CLS, OPT))
        t = z3.Select(inside, C)
        self.ctx.assume((z3.If(F < n, z3.And(OPT.is_some(t), z3.Not(OLD(OPT.val(t))), CONT(OPT.val(t)) == NOTHING),
                                             t == z3.Select(before, C))))
        self.own['_instances'] = inside
        try:
            I.exec_block(s.body, env)
        finally:
            after = z3.Const(self.ctx.fresh('outer'), z3.ArraySort(CLS, OPT))
            self.ctx.assume((z3.Select(after, C) == z3.If(F < n, z3.Select(before, C), z3.Select(self.own['_instances'], C))))
            self.own['_instances'] = after

    def at_yield(self, I):
        if self.body is not None:
            raise Unsupported('second yield')
        self.inside()
        self.own = {a: z3.Const(self.ctx.fresh('body' + a), z3.ArraySort(CLS, OPT)) for a in ATTRS}
        self.body = dict(self.own)
        self.flag = z3.Bool(self.ctx.fresh('flag_after_body'))
        if self.ctx.choose(2, 'body raises'):
            self.raised = True
            raise PyRaise(ZeroDivisionError, 'body')


def c_getattr(D, I, a, kw):
    try:
        return I.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) > 2 and issubclass(e.exc_type, AttributeError):
            return a[2]
        raise


def finish(D, I, f, args, kwargs):
    """run the manager; the exception of the body must reach the caller"""
    try:
        I.call_python(f, args, kwargs)
    except PyRaise as e:
        if e.exc_type is not ZeroDivisionError or D.body is None:
            raise
        return
    D.prove('the exception of the body is not swallowed', z3.BoolVal(not D.raised))


def t_no_caching(ctx):
    D = SetDomain(ctx)
    I = CInterp(ctx, D)
    D.inside = lambda: D.prove('caching is switched off inside', z3.Not(D.flag))
    finish(D, I, unwrap(TC.no_instance_caching), [], {})
    D.prove('the body is run', z3.BoolVal(D.body is not None))
    D.prove('the flag is restored', D.flag == D.flag0)


def orig_lists(lists, first, n0):
    """[(name of the local list, attribute)] -> shapes"""
    def shape(nm):
        def s(D, old):
            f = z3.Function(D.ctx.fresh(nm), z3.IntSort(), OPT)
            return FL(z3.Const(D.ctx.fresh(nm + '_n'), z3.IntSort()), lambda j: Term(f(zi(j))), 'list')
        return s
    return {nm: shape(nm) for nm in lists}


def stores(func):
    """which local list keeps the original values of which attribute: by the code that fills it"""
    import ast
    from pyvc.source import node_of
    out = {}
    for n in ast.walk(node_of(func)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name):
            s = [x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and x.value in ATTRS] + \
                [x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and x.attr in ATTRS]
            if s:
                out[n.func.value.id] = s[0]
    return out


def manager(name, attrs, clear=None):
    f = unwrap(getattr(TC, name))

    def t(ctx):
        D = SetDomain(ctx)
        if name == 'temporary_instance_cache':
            del D.contracts[f]
        I = CInterp(ctx, D)
        fl, F = D.classlist('classes')
        n = zi(fl.n)
        lists = stores(f)
        kw = {}
        cl = z3.BoolVal(False)
        if clear is not None:
            cl = z3.Bool(ctx.fresh('clear'))
            kw['clear'] = SBool(cl)
        val = lambda a: z3.Select(D.own[a], C)
        val0 = lambda a: z3.Select(D.own0[a], C)

        def effect(a):
            """an attribute of a class that has been processed"""
            x, x0 = val(a), val0(a)
            new = z3.And(OPT.is_some(x), z3.Not(OLD(OPT.val(x))))
            if a == '_instances':
                return z3.And(new, CONT(OPT.val(x)) == NOTHING)
            same = z3.Implies(OPT.is_some(x0), z3.And(new, CONT(OPT.val(x)) == CONT(OPT.val(x0))))
            if a == 'simplifications':
                return z3.And(new, same)
            return z3.And(z3.Or(OPT.is_none(x), new), z3.If(cl, z3.And(new, CONT(OPT.val(x)) == NOTHING), same))

        def entry(st):
            k = zi(st.k)
            out = []
            for nm, a in lists.items():
                o = to(st[nm])
                out.append(('originals kept ' + nm, z3.And(zi(o.n) == k, (z3.Implies(
                    F < k, o.get(F).t == val0(a))))))
            for a in ATTRS:
                if a in attrs:
                    out.append(('other classes untouched ' + a, (z3.Implies(F >= k, val(a) == val0(a)))))
                    out.append(('takes effect ' + a, (z3.Implies(F < k, effect(a)))))
                else:
                    out.append(('not changed ' + a, D.own[a] == D.own0[a]))
            return out

        def to(v):
            return v if isinstance(v, FL) else FL(z3.IntVal(0), lambda j: Term(OPT.none), 'list')

        def exit_(st):
            k = zi(st.k)
            out = []
            if not hasattr(D, 'start'):
                D.start = dict(D.own)
            for a in ATTRS:
                s = z3.Select(D.start[a], C)
                if a not in attrs:
                    out.append(('untouched ' + a, D.own[a] == D.start[a]))
                else:
                    out.append(('rest untouched ' + a, (z3.Implies(F == n, val(a) == s))))
                    out.append(('restored ' + a, (z3.Implies(z3.And(F >= n - k, F < n), val(a) == val0(a)))))
            return out
        ls = od.loops_of(f)
        if len(ls) == 2:
            D.loops[id(ls[0])] = Loop(entry, shapes=orig_lists(lists, F, n))
            D.loops[id(ls[1])] = Loop(exit_)

        def inside():
            for a in attrs:
                D.prove('takes effect inside: ' + a, (z3.Implies(F < n, effect(a))))
            for a in ATTRS:
                x = z3.Implies(F == n, val(a) == val0(a))
                if a == '_instances' and clear is not None:
                    x = z3.Implies(D.K < zi(D.cached.n), z3.And(OPT.is_some(val(a)), z3.Not(OLD(OPT.val(val(a))))))
                    D.prove('temporary caches of all classes inside', (x))
                    continue
                D.prove('other classes untouched inside: ' + a, (x))
        D.inside = inside
        finish(D, I, f, [fl], kw)
        D.prove('the body is run', z3.BoolVal(D.body is not None))
        for a in ATTRS:
            now, was, body = (z3.Select(x[a], C) for x in (D.own, D.own0, D.body))
            if a in attrs:
                D.prove('restored: ' + a, z3.Implies(F < n, now == was))
            rest = body
            if a == '_instances' and clear is not None:
                rest = z3.If(D.K < zi(D.cached.n), was, body)
            D.prove('other classes keep what the body did: ' + a, z3.Implies(F == n, now == rest))
    return t


# ------------------------------------------------------------------ create

ARGS = z3.DeclareSort('Args')
KWARGS = z3.DeclareSort('Kwargs')
KEY = z3.DeclareSort('Key')
RES = z3.DeclareSort('Result')
I_ = z3.IntSort()
MKKEY = z3.Function('instance_key', ARGS, KWARGS, KEY)
RUN = z3.Function('result_from_simplification', I_, ARGS, KWARGS, RES)
GOES_ON = z3.Function('returns_new_arguments', I_, ARGS, KWARGS, z3.BoolSort())
NARGS = z3.Function('new_args', I_, ARGS, KWARGS, ARGS)
NKW = z3.Function('new_kwargs', I_, ARGS, KWARGS, KWARGS)
STOP = z3.Function('simplified', I_, ARGS, KWARGS, RES)
INST = z3.Function('instance', ARGS, KWARGS, RES)
RESULT = z3.Function('result_for_key', KEY, RES)
RKEY = z3.Function('key_of_result', RES, KEY)


class Tok(Sym):
    """opaque value"""

    def __init__(self, kind, t=None):
        self.kind, self.t = kind, t


class CrInterp(CInterp):
    def _bind(self, node, args, kwargs, defaults, kwdefaults, name):
        if node.args.vararg and node.args.kwarg and any(isinstance(x, Tok) and x.kind == 'args' for x in args):
            d = super()._bind(node, args[:-1], {}, defaults, kwdefaults, name)
            d[node.args.vararg.arg] = args[-1]
            d[node.args.kwarg.arg] = kwargs['**']
            return d
        return super()._bind(node, args, kwargs, defaults, kwdefaults, name)

    def getitem(self, o, i):
        if isinstance(o, Tok) and o.kind == 'cache':
            return self.dom.read_cache(self, i)
        return super().getitem(o, i)

    def setitem(self, o, i, v):
        if isinstance(o, Tok) and o.kind == 'cache':
            return self.dom.write_cache(self, i, v)
        return super().setitem(o, i, v)

    def to_seq(self, v):
        if isinstance(v, Tok) and v.kind == 'result':
            raise PyRaise(TypeError if self.ctx.choose(2, 'not iterable / wrong length') else ValueError, '')
        return super().to_seq(v)


class CrDomain(od.ODomain):
    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.cls = Tok('cls')
        self.caching = z3.Bool(ctx.fresh('instance_caching'))
        self.idem = z3.Bool(ctx.fresh('create_idempotent'))
        self.nsimp = self.int('n_simplifications', lo=0)

    def set_global(self, env, name, v):
        if name != 'LEVEL':           # indentation of the debugging output
            raise Unsupported('global %s' % name)

    def read_cache(self, I, key):
        self.prove('the cache is read only if caching is on', self.caching)
        if self.ctx.choose(2, 'not in cache'):
            raise PyRaise(KeyError, '')
        return Tok('result', RESULT(self.key(key)))

    def write_cache(self, I, key, v):
        self.prove('the cache is written only if caching is on', self.caching)
        self.prove('cache invariant: the entry is the result for its key', self.res(v) == RESULT(self.key(key)))

    def key(self, k):
        if isinstance(k, Tok) and k.kind == 'key':
            return k.t
        raise Unsupported('key %r' % (k,))

    def res(self, v):
        if isinstance(v, Tok) and v.kind == 'result':
            return v.t
        if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, Tok) for x in v):
            raise Unsupported('arguments as result')
        raise Unsupported('result %r' % (v,))

    def ak(self, args, kwargs):
        if isinstance(args, Tok) and args.kind == 'args' and isinstance(kwargs, Tok) and kwargs.kind == 'kwargs':
            return args.t, kwargs.t
        raise Unsupported('arguments %r, %r' % (args, kwargs))

    def get_key(self, I, a, kw):
        a, k = self.ak(*a[-2:])
        key = MKKEY(a, k)
        # equal keys stand for equal arguments; what is created does not depend on the cache
        self.ctx.assume(RESULT(key) == RUN(0, a, k))
        self.ctx.assume(z3.Implies(self.idem, RESULT(key) == INST(a, k)) if getattr(self, 'final', None) is not None and
                        self.final[0] is a and self.final[1] is k else z3.BoolVal(True))
        return Tok('key', key)

    def getattr(self, I, o, name):
        if o is self.cls:
            if name == 'instance_caching':
                return SBool(self.caching)
            if name == '_create_idempotent':
                return SBool(self.idem)
            if name == '_instances':
                return Tok('cache')
            if name == 'simplifications':
                return FL(zi(self.nsimp), lambda i: Tok('simplification', zi(i)), 'list')
            if name == '__name__':
                return 'SomeClass'
            return BoundMethod(o, name)
        if isinstance(o, Tok) and o.kind == 'result':
            if name == '_instance_key':
                if self.ctx.choose(2, 'result without key'):
                    raise PyRaise(AttributeError, name)
                self.ctx.assume(z3.Implies(self.idem, RESULT(RKEY(o.t)) == o.t))
                return Tok('key', RKEY(o.t))
            raise Unsupported('attribute %s of the result' % name)
        if isinstance(o, Tok) and o.kind == 'simplification' and name == '__name__':
            raise PyRaise(AttributeError, name)
        return od.ODomain.getattr(self, I, o, name)

    def setattr(self, I, o, name, v):
        if o is self.cls and name == '_has_kwargs':
            return
        raise Unsupported('setting %s' % name)

    def pre_call(self, I, f, args, kwargs):
        if f is self.cls:
            a, k = self.ak(args[0], kwargs.get('**'))
            self.final = (a, k)
            # the idempotent classes: constructing from the final arguments is what create gives for them
            self.ctx.assume(z3.Implies(self.idem, RUN(0, a, k) == INST(a, k)))
            self.ctx.assume(RKEY(INST(a, k)) == MKKEY(a, k))
            return Tok('result', INST(a, k))
        if isinstance(f, Tok) and f.kind == 'simplification':
            if args[0] is not self.cls or kwargs:
                raise Unsupported('call of a simplification')
            a, k = self.ak(*args[1:])
            i = f.t
            if self.ctx.branch(GOES_ON(i, a, k), 'new arguments'):
                self.ctx.assume(RUN(i, a, k) == RUN(i + 1, NARGS(i, a, k), NKW(i, a, k)))
                return (Tok('args', NARGS(i, a, k)), Tok('kwargs', NKW(i, a, k)))
            self.ctx.assume(RUN(i, a, k) == STOP(i, a, k))
            return Tok('result', STOP(i, a, k))
        return od.ODomain.pre_call(self, I, f, args, kwargs)

    def call_method(self, I, m, args, kwargs):
        if m.obj is self.cls:
            if m.name == '_get_instance_key':
                return self.get_key(I, args, kwargs)
            f = Expression.__dict__.get(m.name)
            if f is None:
                raise Unsupported('method %s' % m.name)
            return I.call_python(f.__func__ if isinstance(f, (classmethod, staticmethod)) else f, [self.cls] + list(args), kwargs)
        if isinstance(m.obj, Tok) and m.obj.kind == 'cache':
            if m.name == 'get':
                try:
                    return self.read_cache(I, args[0])
                except PyRaise:
                    return args[1] if len(args) > 1 else None
            if m.name == 'setdefault':
                self.write_cache(I, *args)
                return args[1]
        return od.ODomain.call_method(self, I, m, args, kwargs)

    def as_kwargs(self, I, d):
        if isinstance(d, Tok) and d.kind == 'kwargs':
            return {'**': d}
        return od.ODomain.as_kwargs(self, I, d)

    def keep_star(self, v):
        return isinstance(v, Tok) and v.kind == 'args' or od.ODomain.keep_star(self, v)

    def length(self, I, o):
        if isinstance(o, Tok) and o.kind in ('args', 'kwargs'):
            return self.int('len', lo=0)
        return od.ODomain.length(self, I, o)

    def truth(self, I, v):
        if isinstance(v, Tok) and v.kind in ('args', 'kwargs'):
            return self.ctx.choose(2, 'empty') == 0
        return od.ODomain.truth(self, I, v)

    def contains(self, I, c, x):
        if isinstance(c, Tok) and c.kind == 'cache':
            return self.ctx.choose(2, 'in cache') == 1
        return od.ODomain.contains(self, I, c, x)

    def equal(self, I, a, b):
        if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind == 'key':
            return SBool(a.t == b.t)
        if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind == 'result':
            return SBool(a.t == b.t)
        return od.ODomain.equal(self, I, a, b)

    def is_none(self, I, o):
        return False if isinstance(o, Tok) else od.ODomain.is_none(self, I, o)

    def isinstance(self, I, o, c):
        if isinstance(o, Tok) and o.kind == 'result':
            if c is tuple:
                return False
            return self.ctx.choose(2, 'class of the result') == 1
        if isinstance(o, Tok):
            return False
        return od.ODomain.isinstance(self, I, o, c)


def t_create(ctx):
    D = CrDomain(ctx)
    I = CrInterp(ctx, D)
    a, k = z3.Const('args0', ARGS), z3.Const('kwargs0', KWARGS)
    f = Expression.create.__func__

    def inv(st):
        x, y = D.ak(st['args'], st['kwargs'])
        return [('arguments so far give the same result', RUN(zi(st.k), x, y) == RUN(0, a, k))]
    tok = lambda kind, sort: (lambda D, old: Tok(kind, z3.Const(ctx.fresh(kind), sort)))
    for l in od.loops_of(f):
        D.loops[id(l)] = Loop(inv, shapes=dict(args=tok('args', ARGS), kwargs=tok('kwargs', KWARGS)))
    # when the simplifications are through, the class itself is instantiated
    x, y = z3.Const('x?', ARGS), z3.Const('y?', KWARGS)
    ctx.assume(z3.ForAll([x, y], RUN(zi(D.nsimp), x, y) == INST(x, y)))
    r = I.call_python(f, [D.cls, Tok('args', a)], {'**': Tok('kwargs', k)})
    D.prove('the result is the one obtained without any cache', D.res(r) == RUN(0, a, k))


# ------------------------------------------------------------------ rules and caches

class RuDomain(od.ODomain):
    """the rules of a class: ghost flag `stale` = caches may hold results of other rules"""

    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.cls = Tok('cls')
        self.stale = False
        self.changed = False
        cr = importlib.import_module('qnet.utils.check_rules')
        self.contracts[unwrap(cr.check_rules_dict)] = lambda D, I, a, kw: Tok('newrules')
        self.contracts[unwrap(AA._clear_cached_instances)] = c_clear
        self.contracts[getattr] = c_getattr
        self.contracts[setattr] = lambda D, I, a, kw: D.setattr(I, *a)

    def getattr(self, I, o, name):
        if o is self.cls:
            if name in ('_rules_attr', '__name__'):
                return BoundMethod(o, name) if name != '__name__' else 'SomeClass'
            if isinstance(name, Tok) or name in ('_rules', '_binary_rules'):
                if self.ctx.choose(2, 'no such attribute'):
                    raise PyRaise(AttributeError, '')
                return Tok('rules')
        if isinstance(o, Tok):
            return BoundMethod(o, name)
        return od.ODomain.getattr(self, I, o, name)

    def native_getattr(self, I, o, name):
        return self.getattr(I, o, name)

    def setattr(self, I, o, name, v):
        if o is self.cls and (isinstance(name, Tok) or name in ('_rules', '_binary_rules')):
            self.change()
            return
        raise Unsupported('setting %r' % (name,))

    def change(self):
        self.stale = self.changed = True

    def call_method(self, I, m, args, kwargs):
        if m.obj is self.cls and m.name == '_rules_attr':
            if self.ctx.choose(2, 'class without rules'):
                raise PyRaise(TypeError, '')
            return Tok('attr')
        if isinstance(m.obj, Tok) and m.obj.kind == 'rules' and m.name in ('update', 'pop', 'clear', '__delitem__', '__setitem__', 'popitem'):
            if m.name in ('pop', '__delitem__') and self.ctx.choose(2, 'no such rule'):
                raise PyRaise(KeyError, '')
            self.change()
            return Tok('rule')
        return od.ODomain.call_method(self, I, m, args, kwargs)

    def delitem(self, I, o, i):
        if isinstance(o, Tok) and o.kind == 'rules':
            if self.ctx.choose(2, 'no such rule'):
                raise PyRaise(KeyError, '')
            self.change()
            return
        return od.ODomain.delitem(self, I, o, i)

    def setitem(self, I, o, i, v):
        if isinstance(o, Tok) and o.kind == 'rules':
            self.change()
            return
        return od.ODomain.setitem(self, I, o, i, v)

    def contains(self, I, c, x):
        if isinstance(c, Tok) and c.kind == 'rules':
            return self.ctx.choose(2, 'rule exists') == 1
        return od.ODomain.contains(self, I, c, x)

    def is_none(self, I, o):
        return False if isinstance(o, Tok) else od.ODomain.is_none(self, I, o)

    def havoc(self, I, env, sp, names, mut):
        od.ODomain.havoc(self, I, env, sp, names, mut)
        self.stale = self.ctx.choose(2, 'stale') == 1


def c_clear(D, I, a, kw):
    D.stale = False


def t_rules(name):
    def t(ctx):
        D = RuDomain(ctx)
        I = CInterp(ctx, D)
        f = unwrap(getattr(Expression, name))
        f = getattr(f, '__func__', f)
        for l in od.loops_of(f):
            D.loops[id(l)] = Loop(lambda st: [])
        kw = {} if ctx.choose(2, 'attr given') == 0 else dict(attr=Tok('attr'))
        if name == 'add_rule':
            a = [Tok('name'), Tok('pattern'), Tok('replacement')]
        else:
            n = D.int('n', lo=0)
            a = [FL(zi(n), lambda i: Tok('name'), 'tuple')]
        ok = False
        try:
            I.call_python(f, [D.cls] + a, kw)
            ok = True
        except PyRaise as e:
            if not issubclass(e.exc_type, (KeyError, ValueError, TypeError, AttributeError)):
                raise
        D.prove('no instance of the former rules is left in a cache', z3.BoolVal(not D.stale))
    return t


def t_clear(ctx):
    D = SetDomain(ctx)
    I = CInterp(ctx, D)
    f = unwrap(AA._clear_cached_instances)
    F, n = D.K, zi(D.cached.n)
    D.cleared = z3.BoolVal(False)
    # the classes with their own cache
    get = D.cached.get

    def inv(st):
        return [('cleared so far', z3.Implies(F < zi(st.k), D.cleared))]
    for l in od.loops_of(f):
        D.loops[id(l)] = Loop(inv)
    I.call_python(f, [], {})
    D.prove('the cache of every class is empty', z3.Implies(F < n, D.cleared))


def tasks():
    yield 'no_instance_caching', t_no_caching, where(unwrap(TC.no_instance_caching))
    yield 'temporary_instance_cache', manager('temporary_instance_cache', ('_instances',)), where(unwrap(TC.temporary_instance_cache))
    yield 'temporary_rules', manager('temporary_rules', ATTRS, True), where(unwrap(TC.temporary_rules))
    yield 'Expression.create', t_create, where(Expression.create.__func__)
    yield 'Expression.add_rule', t_rules('add_rule'), where(Expression.add_rule.__func__)
    yield 'Expression.del_rules', t_rules('del_rules'), where(Expression.del_rules.__func__)
    yield '_clear_cached_instances', t_clear, where(unwrap(AA._clear_cached_instances))


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
