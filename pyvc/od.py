"""Second front end of pyvc: integers, lists of unknown length and ordinary
objects, discharged by z3.

The same AST executor runs the real functions of /repo.  Values:
  SInt / SBool   z3 integer / boolean terms
  FL             a list or tuple of unknown length: a z3 length and a function
                 from positions to values (nested lists, tuples allowed)
  Obj            an instance of a class of /repo; methods and properties are
                 executed from their source
  Term           an uninterpreted value (only equality)
Loops over FL and `while` loops need an invariant from the sidecar
specification (class Loop); calls may be replaced by contracts."""
import ast
import types
import z3

from .engine import (Sym, SInt, SBool, SymStr, Seq, Elem, SDict, IFunc, BoundMethod, SuperProxy, Unsupported, Infeasible, PathEnd, PyRaise,
                     Interp, Obligation, Env, _Return, _Break, _Continue, _BUILTINS, _hashable, is_sym, _Star, _ExcVal)
from .source import unwrap, node_of, where
import functools
import time

VAL = z3.DeclareSort('Val')


def zi(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported('integer expected: %r' % (x,))


class Term(Sym):
    """an uninterpreted value"""

    def __init__(self, t, cands=None, tag=None):
        self.t, self.cands, self.tag = t, cands, tag

    def __repr__(self):
        return 'Term(%s)' % self.t


class FL(Sym):
    meta = None              # what the list is known to hold, e.g. the blocks of a circuit

    def __init__(self, n, get, kind='list', base=None, meta=None):
        self.n, self.get, self.kind, self.base = n, get, kind, base
        self.meta = meta

    def __repr__(self):
        return 'FL(%s)' % self.n


class Iter(Sym):
    """an iterator over a list of unknown length"""

    def __init__(self, fl, pos=0):
        self.fl, self.pos = fl, z3.IntVal(pos)


class FSet(Sym):
    """a set given by its membership predicate over values"""

    def __init__(self, has, tag=''):
        self.has, self.tag = has, tag


class Obj(Sym):
    def __init__(self, cls, fields=None, name=''):
        self.cls, self.fields, self.name = cls, dict(fields or {}), name

    def __repr__(self):
        return '<%s %s>' % (self.cls.__name__, self.name)


def vsub(v, pairs):
    """substitution in a value"""
    if isinstance(v, SInt):
        return SInt(z3.substitute(v.t, *pairs))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.t, *pairs) if isinstance(v.t, z3.ExprRef) else v.t)
    if isinstance(v, Term):
        return Term(z3.substitute(v.t, *pairs), v.cands, v.tag)
    if isinstance(v, FL) and hasattr(v, 'vsub'):
        return v.vsub(pairs)
    if isinstance(v, FL):
        b = v.base
        meta = None
        if v.meta and v.meta[0] == 'opblocks':
            meta = v.meta[:2] + (z3.substitute(v.meta[2], *pairs),)
        return FL(z3.substitute(zi(v.n), *pairs), lambda i: vsub(v.get(i), pairs) if not _clash(i, pairs) else _safe(v, i, pairs), v.kind,
                  (vsub(b[0], pairs), z3.substitute(zi(b[1]), *pairs)) if b else None, meta)
    if isinstance(v, (tuple, list)):
        return type(v)(vsub(x, pairs) for x in v)
    if hasattr(v, 'vsub'):
        return v.vsub(pairs)
    if isinstance(v, Sym):
        raise Unsupported('substitution in %r' % (v,))
    return v


def _occurs(c, e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        todo.extend(x.children())
    return False


def _clash(i, pairs):
    return isinstance(i, z3.ExprRef) and any(_occurs(a, i) for a, _ in pairs)


_cnt = [0]


def _safe(v, i, pairs):
    _cnt[0] += 1
    j = z3.Int('sj!%d' % _cnt[0])
    return vsub(vsub(v.get(j), pairs), [(j, i)])


def vite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        return SInt(z3.If(c, zi(a), zi(b)))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        f = lambda x: x.t if isinstance(x, SBool) else z3.BoolVal(x)
        return SBool(z3.If(c, f(a), f(b)))
    if isinstance(a, Term) and isinstance(b, Term) and a.t.sort() == b.t.sort():
        return Term(z3.If(c, a.t, b.t), a.cands, a.tag)
    if hasattr(a, 'vite'):
        return a.vite(c, b)
    if hasattr(b, 'vite'):
        return b.vite(z3.Not(c), a)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (FL, list)) and isinstance(b, (FL, list)) or isinstance(a, FL) and isinstance(b, tuple):
        a, b = to_fl(a), to_fl(b)
        return FL(z3.If(c, zi(a.n), zi(b.n)), lambda i: vite(c, a.get(i), b.get(i)), a.kind)
    if a is None and b is None or (not isinstance(a, Sym) and not isinstance(b, Sym) and type(a) is type(b) and a == b):
        return a
    raise Unsupported('merge of %r and %r' % (a, b))


def to_fl(v):
    if isinstance(v, FL):
        return v
    if isinstance(v, Seq):
        v = v.values()
    if isinstance(v, (list, tuple)):
        vals = list(v)

        def get(i):
            i = z3.simplify(zi(i))
            if z3.is_int_value(i) and 0 <= i.as_long() < len(vals):
                return vals[i.as_long()]
            if not vals:
                return SInt(z3.Int('none!'))
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = vite(i == k, vals[k], r)
            return r
        return FL(z3.IntVal(len(vals)), get, type(v).__name__ if type(v) in (list, tuple) else 'tuple')
    if isinstance(v, range):
        return to_fl(list(v))
    raise Unsupported('list expected: %r' % (v,))


def veq(a, b):
    """z3 formula: the values are equal (None: unknown)"""
    if hasattr(a, 'veq'):
        return a.veq(b)
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        return zi(a) == zi(b)
    if isinstance(a, Term) and isinstance(b, Term):
        return a.t == b.t if a.t.sort() == b.t.sort() else z3.BoolVal(False)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        f = lambda x: x.t if isinstance(x, SBool) else z3.BoolVal(x)
        return f(a) == f(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (FL, list, tuple)) and isinstance(b, (FL, list, tuple)):
        ka = a.kind if isinstance(a, FL) else type(a).__name__
        kb = b.kind if isinstance(b, FL) else type(b).__name__
        if ka != kb:
            return z3.BoolVal(False)
        a, b = to_fl(a), to_fl(b)
        _cnt[0] += 1
        i = z3.Int('q!%d' % _cnt[0])
        return z3.And(zi(a.n) == zi(b.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(a.n)), veq(a.get(i), b.get(i)))))
    if isinstance(a, Sym) != isinstance(b, Sym) or type(a) is not type(b):
        return z3.BoolVal(False)
    if not isinstance(a, Sym):
        return z3.BoolVal(bool(a == b))
    raise Unsupported('equality of %r and %r' % (a, b))


class Loop:
    """sidecar invariant of one loop: inv(st) -> [(name, formula)]; shapes:
    name -> function(D, old value) giving an arbitrary value of that shape"""

    def __init__(self, inv, shapes=None, ghost=None, break_ok=True):
        self.inv, self.shapes, self.ghost = inv, shapes or {}, ghost


class St:
    """loop state handed to an invariant"""

    def __init__(self, D, I, env, k, it):
        self.D, self.I, self.env, self.k, self.it = D, I, env, k, it

    def __getitem__(self, name):
        return self.I.lookup(name, self.env)

    def get(self, name, d=None):
        try:
            return self.I.lookup(name, self.env)
        except PyRaise:
            return d


def loops_of(func):
    n = node_of(unwrap(func))
    out = [x for x in ast.walk(n) if isinstance(x, (ast.For, ast.While))]
    return sorted(out, key=lambda x: (x.lineno, x.col_offset))


def stored(body):
    """names assigned or mutated in a block"""
    out, mut = set(), set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                mut.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'add', 'update', 'sort', 'reverse', 'popleft',
                                    'setdefault', 'discard', 'clear'):
                mut.add(n.func.value.id)
    return out, mut


class OInterp(Interp):
    def x_Assert(self, s, env):
        """an assertion is checked when the code runs: after it, it holds"""
        v = self.eval(s.test, env)
        if isinstance(v, SBool):
            self.ctx.assume(v.t)
            return
        if not self.truth(v):
            if self.dom.assert_stops:
                raise Infeasible()
            raise PyRaise(AssertionError, '')

    def e_ListComp(self, e, env):
        r = self.dom.comp(self, e, env)
        return super().e_ListComp(e, env) if r is NotImplemented else r

    def e_GeneratorExp(self, e, env):
        r = self.dom.comp(self, e, env)
        return super().e_GeneratorExp(e, env) if r is NotImplemented else r

    def e_SetComp(self, e, env):
        r = self.dom.comp(self, e, env)
        if r is NotImplemented:
            return super().e_SetComp(e, env)
        return self.dom.make_set(self, r)

    def call(self, f, args, kwargs):
        args = list(args)
        if any(isinstance(a, _Star) for a in args):
            args = [a.seq if isinstance(a, _Star) else a for a in args]
        if isinstance(f, functools.partial) and getattr(f.func, 'symbolic_ok', False):
            return f(*args, **kwargs)
        r = self.dom.pre_call(self, f, args, kwargs)
        if r is not NotImplemented:
            return r
        return super().call(f, args, kwargs)

    def getitem(self, o, i):
        r = self.dom.o_getitem(self, o, i)
        return super().getitem(o, i) if r is NotImplemented else r

    def setitem(self, o, i, v):
        if isinstance(o, FL) or (isinstance(o, list) and isinstance(i, (slice, SInt))):
            return self.dom.o_setitem(self, o, i, v)
        return super().setitem(o, i, v)

    def binop(self, op, a, b, inplace=False):
        if isinstance(a, SBool):
            a = SInt(zi(a))
        if isinstance(b, SBool):
            b = SInt(zi(b))
        if isinstance(a, FL) or isinstance(b, FL):
            return self.dom.fl_binop(self, op, a, b, inplace)
        if op is ast.Mult and (isinstance(a, SInt) and isinstance(b, (tuple, list)) or isinstance(b, SInt) and isinstance(a, (tuple, list))):
            s, n = (b, a) if isinstance(a, SInt) else (a, b)
            if len(s) == 1:
                return FL(z3.simplify(z3.If(n.t > 0, n.t, 0)), lambda j: s[0], type(s).__name__)
        return super().binop(op, a, b, inplace)

    def contains(self, c, x):
        if isinstance(c, FL):
            return self.dom.fl_contains(self, c, x)
        return super().contains(c, x)

    def equal(self, a, b):
        if isinstance(a, FL) or isinstance(b, FL):
            if not isinstance(a, (FL, list, tuple)) or not isinstance(b, (FL, list, tuple)):
                return False
            return SBool(veq(a, b))
        return super().equal(a, b)

    def truth(self, v):
        if isinstance(v, FL):
            return self.ctx.branch(zi(v.n) > 0, 'nonempty')
        return super().truth(v)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (SInt, SBool, FL)) or isinstance(b, (SInt, SBool, FL)):
            if a is None or b is None:
                return False
        return super().is_(a, b)


class ODomain:
    """object-level contracts: subclass or fill the tables"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.contracts = {}       # function -> fn(D, I, args, kwargs)
        self.loops = {}           # id(loop node) -> Loop
        self.generic = []         # stack of generic indices
        self.facts = []
        self.prefixes = {}
        self.classes = {}         # class -> constructor contract
        self.assert_stops = True
        self.retry = False        # second attempt without the incremental solver state
        self.I = None
        self.iters = []

    def attach(self, I):
        self.I = I

    # ------------------------------------------------ facts and proofs
    def fresh(self, base, sort=None):
        nm = self.ctx.fresh(base)
        sort = sort if sort is not None else z3.IntSort()
        if not self.generic:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([g.sort() for g in self.generic] + [sort]))
        return f(*self.generic)

    def fresh_fn(self, base, *sorts):
        """a fresh function of positions; depends on the generic indices"""
        nm = self.ctx.fresh(base)
        gs = list(self.generic)
        f = z3.Function(nm, *([g.sort() for g in gs] + list(sorts)))
        return lambda *a: f(*(gs + list(a)))

    def fact(self, f):
        """an assumption that is not a path condition"""
        if self.generic:
            self.facts.append(f)
        self.ctx.assume(f)

    def prove(self, name, f, sub=None):
        t = time.time()
        ctx = self.ctx
        s = ctx.solver
        s.push()
        s.set('timeout', getattr(self, 'timeout', 15000))
        s.add(z3.Not(f))
        r = s.check()
        if r == z3.unknown and self.retry:
            f2 = z3.Solver()
            f2.set('timeout', getattr(self, 'timeout', 15000))
            f2.set('mbqi', False)
            f2.add(list(s.assertions()))
            if f2.check() == z3.unsat:
                r = z3.unsat
        detail = ''
        if r != z3.unsat:
            detail = 'not proved (%s): %s' % (r, str(z3.simplify(f))[:600])
            if r == z3.sat:
                detail += ' | model: %s' % str(s.model())[:600]
        s.pop()
        s.set('timeout', ctx.base_timeout)
        ctx.solver_secs += time.time() - t
        ctx.obligations.append(Obligation('%s: %s' % (ctx.task_name, name), r == z3.unsat, 'z3', detail, time.time() - t, ctx.path_str(),
                                          'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'))
        return r == z3.unsat

    def given(self, name, f):
        """prove, then use"""
        if self.prove(name, f):
            self.ctx.assume(f)

    def prefix_at(self, fl, k):
        """instance of the definition of the partial sums of fl"""
        ps, off = self.prefix(fl)
        k = zi(k)
        self.ctx.assume(z3.Implies(off + k >= 0, ps(z3.simplify(off + k + 1)) == ps(z3.simplify(off + k)) + zi(fl.get(k))))
        self.ctx.assume(ps(z3.IntVal(0)) == 0)

    def induct(self, name, P, n, lo=0, hint=None):
        """forall k in [lo, n]: P(k), by induction"""
        k = z3.Int(self.ctx.fresh('k'))
        m = self.ctx.mark()
        if hint:
            hint(z3.IntVal(lo) if isinstance(lo, int) else lo)
        self.prove(name + ' (base)', z3.Implies(zi(n) >= lo, P(z3.IntVal(lo) if isinstance(lo, int) else lo)))
        self.ctx.undo(m)
        m = self.ctx.mark()
        self.ctx.assume(z3.And(k >= lo, k < zi(n), P(k)))
        if hint:
            hint(k)
        self.prove(name + ' (step)', P(k + 1))
        self.ctx.undo(m)
        self.ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k <= zi(n)), P(k))))

    # ------------------------------------------------ symbolic inputs
    def int(self, name, lo=None, hi=None):
        v = self.fresh(name)
        if lo is not None:
            self.fact(v >= lo)
        if hi is not None:
            self.fact(v < hi)
        return SInt(v)

    def intlist(self, name, n=None, kind='tuple', sort=None):
        n = zi(n) if n is not None else self.fresh('n_' + name)
        self.fact(n >= 0)
        f = self.fresh_fn(name, z3.IntSort(), sort if sort is not None else z3.IntSort())
        wrap = SInt if sort is None else (lambda t: Term(t))
        return FL(n, lambda i: wrap(f(zi(i))), kind)

    def intlistlist(self, name, n=None, kind='list', inner='tuple'):
        n = zi(n) if n is not None else self.fresh('n_' + name)
        self.fact(n >= 0)
        f = self.fresh_fn(name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        ln = self.fresh_fn('len_' + name, z3.IntSort(), z3.IntSort())
        i = z3.Int('i')
        self.fact(z3.ForAll([i], ln(i) >= 0))
        return FL(n, lambda i: FL(ln(zi(i)), lambda j: SInt(f(zi(i), zi(j))), inner), kind)

    def boollist(self, name, n, kind='list'):
        f = self.fresh_fn(name, z3.IntSort(), z3.BoolSort())
        return FL(zi(n), lambda i: SBool(f(zi(i))), kind)

    # ------------------------------------------------ lists
    def in_range(self, i, n):
        return z3.And(zi(i) >= 0, zi(i) < zi(n))

    def o_getitem(self, I, o, i):
        if isinstance(o, (list, tuple)) and isinstance(i, slice) and any(isinstance(x, SInt) for x in (i.start, i.stop)):
            o = to_fl(o)
        if isinstance(o, (list, tuple)) and isinstance(i, SInt) and not self.generic and len(o) < 4:
            return NotImplemented
        if isinstance(o, (list, tuple)) and isinstance(i, SInt):
            o = to_fl(o)
        if not isinstance(o, FL):
            return NotImplemented
        n = zi(o.n)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if isinstance(i.step, int) and i.step == -1 and i.start is None and i.stop is None:
                    return FL(n, lambda j: o.get(n - 1 - zi(j)), o.kind)
                raise Unsupported('slice step')
            lo, hi = self.bound(i.start, n, 0), self.bound(i.stop, n, n)
            m = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            b, off = o.base if o.base else (o, z3.IntVal(0))
            return FL(m, lambda j: o.get(lo + zi(j)), o.kind, base=(b, z3.simplify(off + lo)))
        if isinstance(i, SBool):
            i = SInt(zi(i))
        if not isinstance(i, (int, SInt)):
            raise Unsupported('index')
        t = z3.simplify(zi(i))
        if not self.entails(z3.And(t >= 0, t < n)):
            if self.ctx.branch(z3.And(t >= 0, t < n), 'index in range'):
                pass
            elif self.ctx.branch(z3.And(t < 0, t >= -n), 'negative index'):
                t = t + n
            else:
                raise PyRaise(IndexError, 'index out of range')
        return o.get(t)

    def bound(self, x, n, dflt):
        if x is None:
            return zi(dflt)
        t = zi(x)
        if self.entails(z3.And(t >= 0, t <= n)):
            return t
        t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
        return z3.simplify(t)

    def entails(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.ctx.entails(f)

    def o_setitem(self, I, o, i, v):
        if isinstance(o, list):
            fo = to_fl(o)
            if isinstance(i, slice):
                r = self._slice_set(fo, i, v)
                raise Unsupported('slice assignment to a concrete list')
            return Interp.setitem(I, o, i, v)
        if isinstance(i, slice):
            r = self._slice_set(o, i, v)
            self.ctx.set_attr(o, 'n', r.n)
            self.ctx.set_attr(o, 'get', r.get)
            self.ctx.set_attr(o, 'base', None)
            return
        t = z3.simplify(zi(i))
        n = zi(o.n)
        if not self.entails(z3.And(t >= 0, t < n)):
            if self.ctx.branch(z3.And(t >= 0, t < n)):
                pass
            elif self.ctx.branch(z3.And(t < 0, t >= -n)):
                t = t + n
            else:
                raise PyRaise(IndexError, 'assignment index out of range')
        old = o.get
        self.ctx.set_attr(o, 'get', lambda j: vite(zi(j) == t, v, old(j)))
        self.ctx.set_attr(o, 'base', None)

    def _slice_set(self, o, i, v):
        if i.step not in (None, 1):
            raise Unsupported('slice step')
        n = zi(o.n)
        w = to_fl(self.listlike(v))
        lo, hi = self.bound(i.start, n, 0), self.bound(i.stop, n, n)
        hi = z3.simplify(z3.If(hi < lo, lo, hi))
        m = zi(w.n)
        old, wg = o.get, w.get
        return FL(z3.simplify(lo + m + (n - hi)),
                  lambda j: vite(z3.simplify(zi(j) < lo), old(j), vite(z3.simplify(zi(j) < lo + m), wg(zi(j) - lo), old(zi(j) - m - lo + hi))), o.kind)

    def listlike(self, v):
        if isinstance(v, (FL, list, tuple)):
            return v
        if isinstance(v, Seq):
            return v.values()
        return self.I.iter_concrete(v)

    def fl_binop(self, I, op, a, b, inplace):
        if op is ast.Add and isinstance(a, (FL, list, tuple)) and isinstance(b, (FL, list, tuple)):
            ka = a.kind if isinstance(a, FL) else type(a).__name__
            kb = b.kind if isinstance(b, FL) else type(b).__name__
            if ka != kb and not (inplace and ka == 'list') and not (isinstance(b, FL) and b.kind == 'range'):
                raise PyRaise(TypeError, 'can only concatenate')
            x, y = to_fl(a), to_fl(b)
            r = self.concat(x, y)
            if inplace and ka == 'list' and isinstance(a, FL):
                for k in ('n', 'get', 'base'):
                    self.ctx.set_attr(a, k, getattr(r, k))
                return a
            return r
        if op is ast.Mult and isinstance(a, list) and len(a) == 1 and False:
            pass
        if op is ast.Mult and isinstance(a, (list, tuple)) and len(a) == 1 and isinstance(b, SInt):
            return FL(z3.If(b.t > 0, b.t, 0), lambda j: a[0], type(a).__name__)
        raise Unsupported('list operation')

    def concat(self, x, y):
        n, xg, yg = zi(x.n), x.get, y.get
        return FL(z3.simplify(n + zi(y.n)), lambda j: vite(z3.simplify(zi(j) < n), xg(j), yg(zi(j) - n)), x.kind)

    def fl_contains(self, I, c, x):
        j = z3.Int(self.ctx.fresh('j'))
        return SBool(z3.Exists([j], z3.And(self.in_range(j, c.n), veq(c.get(j), x))))

    def prefix(self, fl):
        """(ps, offset): sum of the first k elements is ps(offset+k)-ps(offset)"""
        b, off = fl.base if fl.base else (fl, z3.IntVal(0))
        k = z3.Int('pk!')
        e = zi(b.get(k))
        key = z3.simplify(e).sexpr()
        if key not in self.prefixes:
            gs = [g for g in self.generic if _occurs(g, e)]
            f = z3.Function(self.ctx.fresh('ps'), *([g.sort() for g in gs] + [z3.IntSort(), z3.IntSort()]))
            self.prefixes[key] = (f, gs)
            simple = z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0
            pats = [e] if simple else [f(*(gs + [k + 1]))]
            ax = z3.And(f(*(gs + [z3.IntVal(0)])) == 0,
                        z3.ForAll([k], z3.Implies(k >= 0, f(*(gs + [k + 1])) == f(*(gs + [k])) + e), patterns=pats))
            if gs:
                ax = z3.ForAll(gs, ax)
            self.ctx.assume(ax)
            self.axioms = getattr(self, 'axioms', []) + [ax]
            self.ctx.trail.append(lambda: self.prefixes.pop(key, None))
        f, gs = self.prefixes[key]
        return (lambda t: f(*(gs + [t]))), off

    def fsum(self, fl):
        ps, off = self.prefix(fl)
        return z3.simplify(ps(z3.simplify(off + zi(fl.n))) - ps(off)) if not z3.is_int_value(off) or off.as_long() else ps(zi(fl.n))

    # ------------------------------------------------ comprehensions
    def comp(self, I, e, env):
        g = e.generators[0]
        it = I.eval(g.iter, env)
        if not isinstance(it, FL):
            if isinstance(it, (list, tuple)) or len(e.generators) > 1 or True:
                # evaluate with the iterable already computed
                return self._comp_concrete(I, e, env, it)
        if len(e.generators) > 1 or g.is_async:
            raise Unsupported('nested comprehension over unknown length')
        if g.ifs:
            return self.filtered(I, e, g, env, it)

        def body(x):
            sub = Env({}, env, env.globs)
            I.assign(g.target, x, sub)
            return I.eval(e.elt, sub)
        return self.fmap(I, it, body)

    def _comp_concrete(self, I, e, env, it):
        nm = '·it%d' % id(e)
        sub = Env({nm: it}, env, env.globs)
        sub.yields = getattr(env, 'yields', None)
        g = e.generators[0]
        gens = [ast.comprehension(target=g.target, iter=ast.Name(id=nm, ctx=ast.Load()), ifs=g.ifs, is_async=0)] + e.generators[1:]
        r = Interp.comprehend(I, e.elt, gens, sub)
        return I._norm(Seq(r, 'list'))

    def filtered(self, I, e, g, env, it):
        raise Unsupported('filtered comprehension over unknown length')

    def fmap(self, I, it, body, kind='list'):
        """[body(x) for x in it]"""
        ctx = self.ctx
        i = z3.Int(ctx.fresh('g'))
        rng = self.in_range(i, it.n)
        facts0 = self.facts
        out = []

        def run():
            self.generic.append(i)
            self.facts = []
            try:
                ctx.assume(rng)
                n0 = len(ctx.solver.assertions())
                v = body(it.get(i))
                fids = {f.get_id() for f in self.facts}
                ax = {a.get_id() for a in getattr(self, 'axioms', [])}
                conds = [a for a in list(ctx.solver.assertions())[n0:] if a.get_id() not in fids and a.get_id() not in ax]
                return v, conds, list(self.facts), [a for a in getattr(self, 'axioms', [])]
            finally:
                self.generic.pop()
                self.facts = facts0
        pre = dict(self.prefixes)
        results = ctx.explore(run)
        val = None
        for r in reversed(results):
            if r.kind == 'raise':
                if ctx.choose(2, 'element raises') == 1:
                    j = self.fresh('bad')
                    ctx.assume(self.in_range(j, it.n))
                    raise r.value
                continue
            if r.kind != 'ok':
                raise Unsupported('control flow out of comprehension')
            v, conds, facts, ax = r.value
            for a in ax:
                if a.get_id() not in {x.get_id() for x in ctx.solver.assertions()}:
                    ctx.assume(a)
            c = z3.And(conds) if conds else z3.BoolVal(True)
            for f in facts:
                q = z3.ForAll([i], z3.Implies(z3.And(rng, c), f))
                if self.generic:
                    self.facts.append(q)
                ctx.assume(q)
            val = v if val is None else vite(c, v, val)
        for r in results:
            pass
        # prefix functions introduced inside keep their meaning
        if val is None:
            # no element can exist, or all raise
            ctx.assume(zi(it.n) <= 0)
            return FL(z3.IntVal(0), lambda j: SInt(z3.Int('none!')), kind)
        return FL(it.n, lambda j: vsub(val, [(i, zi(j))]) if not (isinstance(j, z3.ExprRef) and j.eq(i)) else val, kind)

    # ------------------------------------------------ calls
    def pre_call(self, I, f, args, kwargs):
        if isinstance(f, BoundMethod) and isinstance(f.obj, FL):
            return self.fl_method(I, f.obj, f.name, args, kwargs)
        if isinstance(f, BoundMethod) and isinstance(f.obj, (list, tuple)) and not isinstance(f.obj, Seq):
            if f.name in ('extend',) and args and isinstance(args[0], FL):
                raise Unsupported('extend of a concrete list by an unknown one')
        h = self.contracts.get(unwrap(f)) if not isinstance(f, (Sym, BoundMethod, IFunc)) and _hashable(f) else None
        if h is not None:
            return h(self, I, args, kwargs)
        if _hashable(f) and f in BUILT and (any(isinstance(a, (FL, FSet, Iter)) for a in args) or f in (range,) and is_sym(args)):
            return BUILT[f](self, I, args, kwargs)
        return NotImplemented

    def fl_method(self, I, o, name, args, kwargs):
        n = zi(o.n)
        if name == 'index':
            r = self.fresh('idx')
            j = z3.Int(self.ctx.fresh('j'))
            some = z3.Exists([j], z3.And(self.in_range(j, n), veq(o.get(j), args[0])))
            if not self.entails(some):
                if not self.ctx.branch(some, 'in list'):
                    raise PyRaise(ValueError, 'not in list')
            self.fact(z3.And(self.in_range(r, n), veq(o.get(r), args[0]),
                             z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < r), z3.Not(veq(o.get(j), args[0]))))))
            return SInt(r)
        if o.kind == 'list' and name == 'append':
            old, v = o.get, args[0]
            self.ctx.set_attr(o, 'get', lambda j: vite(z3.simplify(zi(j) == n), v, old(j)))
            self.ctx.set_attr(o, 'n', z3.simplify(n + 1))
            self.ctx.set_attr(o, 'base', None)
            return None
        if o.kind == 'list' and name == 'extend':
            r = self.concat(o, to_fl(self.listlike(args[0])))
            for k in ('n', 'get', 'base'):
                self.ctx.set_attr(o, k, getattr(r, k))
            return None
        if o.kind == 'list' and name == 'insert':
            p = zi(args[0])
            if not self.entails(z3.And(p >= 0, p <= n)):
                raise Unsupported('insert position')
            old, v = o.get, args[1]
            self.ctx.set_attr(o, 'get', lambda j: vite(zi(j) < p, old(j), vite(zi(j) == p, v, old(zi(j) - 1))))
            self.ctx.set_attr(o, 'n', z3.simplify(n + 1))
            return None
        if o.kind == 'list' and name == 'pop':
            p = zi(args[0]) if args else n - 1
            if args and isinstance(args[0], int) and args[0] < 0:
                p = n + args[0]
            if not self.ctx.branch(z3.And(p >= 0, p < n), 'pop in range'):
                raise PyRaise(IndexError, 'pop')
            v, old = o.get(p), o.get
            self.ctx.set_attr(o, 'get', lambda j: vite(z3.simplify(zi(j) < p), old(j), old(zi(j) + 1)))
            self.ctx.set_attr(o, 'n', z3.simplify(n - 1))
            return v
        if o.kind == 'list' and name == 'remove':
            p = zi(self.fl_method(I, o, 'index', args, {}))
            self.fl_method(I, o, 'pop', [SInt(p)], {})
            return None
        if name == 'copy':
            return FL(o.n, o.get, o.kind)
        if name == 'count':
            raise Unsupported('count')
        raise Unsupported('list method %s' % name)

    def call(self, I, f, args, kwargs):
        c = self.classes.get(f) if _hashable(f) else None
        if c is not None:
            return c(self, I, args, kwargs)
        if isinstance(f, types.MethodType) and isinstance(f.__self__, type):
            h = self.contracts.get(unwrap(f))
            if h is not None:
                return h(self, I, [f.__self__] + list(args), kwargs)
            return I.call_python(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, type) and f.__module__.startswith('qnet.') and not issubclass(f, BaseException):
            return self.construct(I, f, args, kwargs)
        return NotImplemented

    def construct(self, I, cls, args, kwargs):
        o = Obj(cls)
        new = None
        for k in cls.__mro__:
            if '__init__' in k.__dict__ and k is not object:
                I.call_python(k.__dict__['__init__'], [o] + list(args), kwargs, k)
                break
        return o

    def should_inline(self, I, f):
        return f.__module__.startswith('qnet.')

    def call_value(self, I, f, args, kwargs):
        raise Unsupported('call of %r' % (f,))

    def call_method(self, I, m, args, kwargs):
        o = m.obj
        if isinstance(o, Obj):
            if m.func is not None:
                return self._method(I, m.func, o, args, kwargs)
            f = self.find(o.cls, m.name)
            if f is None:
                raise PyRaise(AttributeError, m.name)
            return self._method(I, f[1], o, args, kwargs, f[0])
        raise Unsupported('method %s of %r' % (m.name, o))

    def _method(self, I, f, o, args, kwargs, owner=None):
        g = unwrap(f)
        h = self.contracts.get(g)
        if h is not None:
            return h(self, I, [o] + list(args), kwargs)
        if isinstance(f, staticmethod):
            return I.call(g, list(args), kwargs)
        if isinstance(f, classmethod):
            return I.call_python(g, [o.cls if isinstance(o, Obj) else o] + list(args), kwargs, owner)
        return I.call_python(g, [o] + list(args), kwargs, owner)

    def find(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k, k.__dict__[name]
        return None

    # ------------------------------------------------ attributes
    def getattr(self, I, o, name):
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if name == '__class__':
                return o.cls
            f = self.find(o.cls, name)
            if f is None:
                return self.missing(I, o, name)
            k, v = f
            if isinstance(v, property):
                h = self.contracts.get(v.fget)
                if h is not None:
                    return h(self, I, [o], {})
                return I.call_python(v.fget, [o], {}, k)
            if type(v).__name__ in ('cached_property', 'classproperty', 'LazyProperty'):
                raise Unsupported('descriptor %s' % name)
            if isinstance(v, (types.FunctionType, classmethod, staticmethod)):
                return BoundMethod(o, name, v)
            if hasattr(v, '__wrapped__'):
                return BoundMethod(o, name, v)
            return v
        if isinstance(o, FL):
            return BoundMethod(o, name)
        if isinstance(o, Term):
            return self.term_attr(I, o, name)
        if isinstance(o, FSet):
            return BoundMethod(o, name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def term_attr(self, I, o, name):
        raise Unsupported('attribute %s of an unknown value' % name)

    def missing(self, I, o, name):
        raise PyRaise(AttributeError, name)

    def setattr(self, I, o, name, v):
        if isinstance(o, Obj):
            f = self.find(o.cls, name)
            if f is not None and isinstance(f[1], property):
                if f[1].fset is None:
                    raise PyRaise(AttributeError, name)
                return I.call_python(f[1].fset, [o, v], {}, f[0])
            self.ctx.set_item(o.fields, name, v)
            return
        raise Unsupported('assignment to attribute of %r' % (o,))

    def native_getattr(self, I, o, name):
        return NotImplemented

    def native_setattr(self, I, o, name, v):
        raise Unsupported('assignment to attribute %s of %r' % (name, o))

    def super_attr(self, I, sp, name):
        cls = sp.obj.cls if isinstance(sp.obj, Obj) else sp.obj
        mro = list(cls.__mro__)
        for k in mro[mro.index(sp.cls) + 1:]:
            if name in k.__dict__:
                v = k.__dict__[name]
                if isinstance(v, property):
                    return I.call_python(v.fget, [sp.obj], {}, k)
                if k is object:
                    return lambda *a, **kw: None
                if isinstance(sp.obj, Obj):
                    return _OwnedMethod(sp.obj, name, v, k)
                return functools.partial(_owned, self, I, unwrap(v), sp.obj, k)
        raise PyRaise(AttributeError, name)

    def make_super(self, I, env):
        e = env
        while e is not None and '__class__' not in e.names:
            e = e.parent
        if e is None:
            raise Unsupported('super() without frame')
        cls = e.names['__class__']
        f = env
        while f is not None and not hasattr(f, 'func_name'):
            f = f.parent
        return SuperProxy(next(iter(f.names.values())), cls)

    # ------------------------------------------------ comparisons
    def isinstance(self, I, o, c):
        if isinstance(o, Obj):
            return isinstance(c, type) and issubclass(o.cls, c)
        if isinstance(o, FL):
            return {'list': list, 'tuple': tuple}.get(o.kind) is c or c is object or \
                getattr(c, '__name__', '') in ('Sequence', 'Iterable', 'Collection', 'Sized')
        if isinstance(o, Term):
            return self.term_isinstance(I, o, c)
        if isinstance(o, FSet):
            return c in (set, object)
        raise Unsupported('isinstance of %r' % (o,))

    def term_isinstance(self, I, o, c):
        if o.cands is not None:
            yes = [k for k in o.cands if issubclass(k, c)]
            if len(yes) == len(o.cands):
                return True
            if not yes:
                return False
        raise Unsupported('isinstance of an unknown value')

    def type_of(self, I, o):
        if isinstance(o, Obj):
            return o.cls
        if isinstance(o, FL):
            return {'list': list, 'tuple': tuple}[o.kind]
        if isinstance(o, SInt):
            return int
        if isinstance(o, SBool):
            return bool
        if isinstance(o, SymStr):
            return str
        raise Unsupported('type of %r' % (o,))

    def is_none(self, I, o):
        return False

    def is_(self, I, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        raise Unsupported('identity of %r and %r' % (a, b))

    def equal(self, I, a, b):
        for x, y, m in ((a, b, '__eq__'), (b, a, '__eq__')):
            if isinstance(x, Obj):
                f = self.find(x.cls, m)
                if f is not None and f[0] is not object:
                    r = self._method(I, f[1], x, [y], {}, f[0])
                    if r is not NotImplemented:
                        return r
                else:
                    return x is y
        if isinstance(a, Term) and isinstance(b, Term):
            return SBool(a.t == b.t)
        if isinstance(a, (Term, FL, FSet)) or isinstance(b, (Term, FL, FSet)):
            if isinstance(a, FSet) and isinstance(b, FSet):
                return SBool(self.set_eq(a, b))
            return self.unequal_kinds(I, a, b)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            return False
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return self.unknown_bool(I, 'string equality')
        raise Unsupported('equality of %r and %r' % (a, b))

    def unequal_kinds(self, I, a, b):
        raise Unsupported('equality of %r and %r' % (a, b))

    def unknown_bool(self, I, why):
        return SBool(z3.Bool(self.ctx.fresh('unk')))

    def compare(self, I, name, a, b):
        m = {'<': ('__lt__', a, b), '>': ('__lt__', b, a), '<=': ('__le__', a, b), '>=': ('__le__', b, a)}[name]
        if isinstance(m[1], Obj):
            f = self.find(m[1].cls, m[0])
            if f:
                return self._method(I, f[1], m[1], [m[2]], {}, f[0])
        raise Unsupported('comparison of %r and %r' % (a, b))

    def truth(self, I, v):
        if isinstance(v, Obj):
            for m in ('__bool__', '__len__'):
                f = self.find(v.cls, m)
                if f and f[0] is not object:
                    return I.truth(self._method(I, f[1], v, [], {}, f[0]))
            return True
        raise Unsupported('truth of %r' % (v,))

    def binop(self, I, name, a, b):
        nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '**': 'pow', '<<': 'lshift', '//': 'floordiv', '&': 'and', '|': 'or',
              '%': 'mod', '>>': 'rshift', '@': 'matmul'}[name]
        for x, y, m in ((a, b, '__%s__' % nm), (b, a, '__r%s__' % nm)):
            if isinstance(x, Obj):
                f = self.find(x.cls, m)
                if f:
                    r = self._method(I, f[1], x, [y], {}, f[0])
                    if r is not NotImplemented:
                        return r
        return self.other_binop(I, name, a, b)

    def other_binop(self, I, name, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return NotImplemented
        raise Unsupported('operation %s on %r, %r' % (name, a, b))

    def unary(self, I, op, v):
        if isinstance(v, Obj) and op == '-':
            f = self.find(v.cls, '__neg__')
            if f:
                return self._method(I, f[1], v, [], {}, f[0])
        raise Unsupported('unary %s' % op)

    def native_binop(self, I, name, a, b):
        return NotImplemented

    def contains(self, I, c, x):
        if isinstance(c, Obj):
            f = self.find(c.cls, '__contains__')
            if f:
                return self._method(I, f[1], c, [x], {}, f[0])
        if isinstance(c, FSet):
            return SBool(c.has(x))
        raise Unsupported('containment in %r' % (c,))

    def getitem(self, I, o, i):
        if isinstance(o, Obj):
            f = self.find(o.cls, '__getitem__')
            if f:
                return self._method(I, f[1], o, [i], {}, f[0])
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, I, o, i, v):
        raise Unsupported('subscript assignment')

    def delitem(self, I, o, i):
        raise Unsupported('del')

    def length(self, I, o):
        if isinstance(o, FL):
            return SInt(zi(o.n))
        if isinstance(o, Obj):
            f = self.find(o.cls, '__len__')
            if f:
                return self._method(I, f[1], o, [], {}, f[0])
        raise Unsupported('length of %r' % (o,))

    def iterate(self, I, o):
        if isinstance(o, Obj):
            f = self.find(o.cls, '__iter__')
            if f:
                return I.to_seq(self._method(I, f[1], o, [], {}, f[0]))
        raise Unsupported('iteration over %r' % (o,))

    def make_set(self, I, v):
        if isinstance(v, FL):
            def has(x):
                j = z3.Int(self.ctx.fresh('j'))
                return z3.Exists([j], z3.And(self.in_range(j, v.n), veq(v.get(j), x)))
            return FSet(has)
        if isinstance(v, (list, tuple)):
            return FSet(lambda x: z3.Or([veq(y, x) for y in v]) if v else z3.BoolVal(False))
        raise Unsupported('set of %r' % (v,))

    def set_eq(self, a, b):
        raise Unsupported('set equality')

    def set_method(self, I, o, name, args, kwargs):
        raise Unsupported('set method')

    def as_kwargs(self, I, d):
        raise Unsupported('**')

    def keep_star(self, v):
        return isinstance(v, FL)

    def with_stmt(self, I, s, env):
        raise Unsupported('with')

    def str_of(self, I, o):
        return SymStr()

    def to_int(self, I, o):
        if isinstance(o, Obj):
            f = self.find(o.cls, '__int__')
            if f:
                return self._method(I, f[1], o, [], {}, f[0])
        raise Unsupported('int of %r' % (o,))

    def set_global(self, env, name, v):
        raise Unsupported('global')

    def get_global(self, env, name):
        return env.globs[name]

    def __getattr__(self, name):
        if name.endswith(('_seq', '_seqs', '_star')) or name in ('unzip', 'sym_range', 'dict_from_seq', 'seq_index', 'seq_split_at',
                                                                   'seq_contains', 'dict_contains', 'dict_get', 'dict_keys', 'dict_set',
                                                                   'dict_method', 'seq_equal', 'seq_method'):
            def f(*a, **k):
                raise Unsupported('sequence operation %s' % name)
            return f
        raise AttributeError(name)

    # ------------------------------------------------ loops
    def for_hook(self, I, s, env, it):
        if isinstance(it, (FL, SDict)) or isinstance(it, list) and id(s) in self.loops and self.loops[id(s)].ghost == 'always':
            if isinstance(it, SDict):
                return None
            sp = self.loops.get(id(s))
            if sp is None:
                raise Unsupported('loop at line %d has no invariant' % s.lineno)
            return lambda: self.run_loop(I, s, env, to_fl(it), sp)
        return None

    def loop_hook(self, I, s, env):
        sp = self.loops.get(id(s))
        if sp is None:
            return None
        return lambda: self.run_loop(I, s, env, None, sp)

    def havoc(self, I, env, sp, names, mut):
        if sp.ghost == 'iterators':
            for it in self.iters:
                self.ctx.set_attr(it, 'pos', self.fresh('pos'))
        for nm in sorted(names | mut):
            try:
                old = I.lookup(nm, env)
            except PyRaise:
                continue
            if nm in sp.shapes:
                new = sp.shapes[nm](self, old)
            else:
                new = self.like(nm, old)
            if nm in mut and isinstance(old, FL) and nm not in names:
                for k in ('n', 'get', 'base'):
                    self.ctx.set_attr(old, k, getattr(new, k))
            else:
                I.bind(nm, new, env)

    def like(self, nm, old):
        """an arbitrary value of the same shape"""
        if isinstance(old, bool) or isinstance(old, SBool):
            return SBool(z3.Bool(self.ctx.fresh(nm)))
        if isinstance(old, (int, SInt)):
            return SInt(self.fresh(nm))
        if isinstance(old, FL):
            j = z3.Int('sh!')
            e = old.get(j)
            if isinstance(e, (int, SInt)):
                return self.intlist(nm, kind=old.kind)
            if isinstance(e, FL):
                return self.intlistlist(nm, kind=old.kind, inner=e.kind)
        if isinstance(old, (list, tuple)) and all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in old):
            return self.intlist(nm, kind=type(old).__name__)
        raise Unsupported('loop variable %s of unknown shape' % nm)

    def run_loop(self, I, s, env, it, sp):
        ctx = self.ctx
        names, mut = stored(s.body)
        if it is not None:
            names |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        # lists that are mutated must be FL
        for nm in mut | {n for n in names if n in sp.shapes}:
            try:
                v = I.lookup(nm, env)
            except PyRaise:
                continue
            if isinstance(v, list):
                I.bind(nm, to_fl(v) if v else FL(z3.IntVal(0), lambda j, nm=nm: self.elem_like(sp, nm, j), 'list'), env)
        st = St(self, I, env, z3.IntVal(0), it)
        for nm, f in sp.inv(st):
            if callable(f):
                continue             # nothing before the first element
            self.prove('loop invariant holds initially: ' + nm, f)
        c = ctx.choose(2, 'loop %d: after/iteration' % s.lineno)
        self.havoc(I, env, sp, names, mut)
        if it is not None:
            k = self.fresh('k')
            n = z3.If(zi(it.n) > 0, zi(it.n), 0)
            if c == 0:
                ctx.assume(k == n)
            else:
                ctx.assume(z3.And(k >= 0, k < n))
        else:
            k = None
        st = St(self, I, env, k, it)
        kq = z3.Int('kq!%d' % s.lineno)
        for nm, f in sp.inv(st):
            self.fact(f if not callable(f) else z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < k), f(kq))))
        if c == 0:
            if it is None and I.truth(I.eval(s.test, env)):
                raise Infeasible()
            I.exec_block(s.orelse, env)
            return
        if it is None:
            if not I.truth(I.eval(s.test, env)):
                raise Infeasible()
        else:
            I.assign(s.target, it.get(k), env)
        try:
            I.exec_block(s.body, env)
        except _Continue:
            pass
        except _Break:
            return
        st = St(self, I, env, k + 1 if k is not None else None, it)
        for nm, f in sp.inv(st):
            if callable(f):
                k0 = self.fresh('k0')
                m = ctx.mark()
                ctx.assume(z3.And(k0 >= 0, k0 < k))
                self.prove('loop invariant preserved: %s (earlier elements)' % nm, f(k0))
                ctx.undo(m)
                m = ctx.mark()
                ctx.assume(k >= 0)
                self.prove('loop invariant preserved: %s (this element)' % nm, f(k))
                ctx.undo(m)
            else:
                self.prove('loop invariant preserved: ' + nm, f)
        raise PathEnd()

    def elem_like(self, sp, nm, j):
        if nm in sp.shapes:
            return sp.shapes[nm](self, None).get(j)
        return SInt(z3.Int('none!'))


class _OwnedMethod(BoundMethod):
    def __init__(self, obj, name, func, owner):
        BoundMethod.__init__(self, obj, name, func)


def _owned(D, I, f, o, k, *a, **kw):
    return I.call_python(f, [o] + list(a), kw, k)


_owned.symbolic_ok = True

# ------------------------------------------------------------------ builtins

def _len(D, I, a, kw):
    return SInt(zi(a[0].n)) if isinstance(a[0], FL) else D.length(I, a[0])


def _tuple(D, I, a, kw):
    return FL(a[0].n, a[0].get, 'tuple', a[0].base, a[0].meta)


def _list(D, I, a, kw):
    return FL(a[0].n, a[0].get, 'list', a[0].base, a[0].meta)


def _range(D, I, a, kw):
    a = [zi(x) for x in a]
    lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2:
        raise Unsupported('range with step')
    n = z3.simplify(hi - lo)
    if not D.entails(n >= 0):
        n = z3.If(n > 0, n, z3.IntVal(0))
    return FL(n, lambda j: SInt(z3.simplify(lo + zi(j))), 'list')


def _enumerate(D, I, a, kw):
    s = zi(a[1] if len(a) > 1 else kw.get('start', 0))
    x = a[0]
    return FL(x.n, lambda j: (SInt(z3.simplify(s + zi(j))), x.get(j)), 'list')


def _zip(D, I, a, kw):
    xs = [to_fl(D.listlike(x)) for x in a]
    n = zi(xs[0].n)
    for x in xs[1:]:
        m = zi(x.n)
        if not D.entails(n == m):
            n = z3.If(n < m, n, m)
    return FL(n, lambda j: tuple(x.get(j) for x in xs), 'list')


def _sum(D, I, a, kw):
    t = D.fsum(a[0])
    return SInt(z3.simplify(t + zi(a[1]))) if len(a) > 1 else SInt(t)


def _map(D, I, a, kw):
    if len(a) == 2 and isinstance(a[1], FL):
        return D.fmap(I, a[1], lambda x: I.call(a[0], [x], {}))
    raise Unsupported('map')


def _reversed(D, I, a, kw):
    x = a[0]
    return FL(x.n, lambda j: x.get(zi(x.n) - 1 - zi(j)), 'list')


def _all(D, I, a, kw):
    x = a[0]
    j = z3.Int(D.ctx.fresh('j'))
    v = x.get(j)
    b = v.t if isinstance(v, SBool) else (z3.BoolVal(v) if isinstance(v, bool) else zi(v) != 0)
    return SBool(z3.ForAll([j], z3.Implies(D.in_range(j, x.n), b)))


def _any(D, I, a, kw):
    x = a[0]
    j = z3.Int(D.ctx.fresh('j'))
    v = x.get(j)
    b = v.t if isinstance(v, SBool) else (z3.BoolVal(v) if isinstance(v, bool) else zi(v) != 0)
    return SBool(z3.Exists([j], z3.And(D.in_range(j, x.n), b)))


def _minmax(mx):
    def f(D, I, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported('min/max form')
        x = a[0]
        n = zi(x.n)
        if not D.entails(n > 0):
            if not D.ctx.branch(n > 0, 'nonempty'):
                raise PyRaise(ValueError, 'empty sequence')
        r = D.fresh('ext')
        p = D.fresh('pos')
        j = z3.Int(D.ctx.fresh('j'))
        e = zi(x.get(j))
        D.fact(z3.And(p >= 0, p < n, r == zi(x.get(p)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), e <= r if mx else e >= r))))
        return SInt(r)
    return f


def _sorted(D, I, a, kw):
    """contract of sorted: a rearrangement (bijection of positions) with
    non-decreasing keys"""
    x = a[0]
    key = kw.get('key')
    n = zi(x.n)
    if set(kw) - {'key'}:
        raise Unsupported('sorted options')
    p = D.fresh_fn('sp', z3.IntSort(), z3.IntSort())
    q = D.fresh_fn('sq', z3.IntSort(), z3.IntSort())
    j, k = z3.Int(D.ctx.fresh('j')), z3.Int(D.ctx.fresh('k'))
    rng = lambda t: z3.And(t >= 0, t < n)
    D.fact(z3.ForAll([j], z3.Implies(rng(j), z3.And(rng(p(j)), q(p(j)) == j)), patterns=[p(j)]))
    D.fact(z3.ForAll([j], z3.Implies(rng(j), z3.And(rng(q(j)), p(q(j)) == j)), patterns=[q(j)]))
    out = FL(n, lambda t: x.get(p(zi(t))), 'list')
    out.perm = (p, q)
    D.last_sorted = out
    keys = D.fmap(I, out, lambda v: I.call(key, [v], {})) if key is not None else out
    D.fact(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), zi(keys.get(j)) <= zi(keys.get(k)))))
    return out


def _iter(D, I, a, kw):
    it = Iter(a[0])
    D.iters.append(it)
    return it


def _next(D, I, a, kw):
    it = a[0]
    if len(a) > 1:
        raise Unsupported('next with default')
    if not D.ctx.branch(it.pos < zi(it.fl.n), 'next'):
        raise PyRaise(StopIteration, 'exhausted')
    v = it.fl.get(it.pos)
    D.ctx.set_attr(it, 'pos', z3.simplify(it.pos + 1))
    return v


def _setb(D, I, a, kw):
    return D.make_set(I, a[0]) if not isinstance(a[0], FSet) else a[0]


BUILT = {len: _len, tuple: _tuple, list: _list, range: _range, enumerate: _enumerate, zip: _zip, sum: _sum, map: _map,
         reversed: _reversed, all: _all, any: _any, min: _minmax(False), max: _minmax(True), sorted: _sorted, iter: _iter, next: _next, set: _setb,
         frozenset: _setb}


def setup(ctx, loops=None, contracts=None, cls=ODomain):
    """(domain, interpreter); loops: {(function, ordinal): Loop}"""
    D = cls(ctx)
    I = OInterp(ctx, D)
    for (f, k), sp in (loops or {}).items():
        ns = loops_of(f)
        if k < len(ns):
            D.loops[id(ns[k])] = sp
    for f, h in (contracts or {}).items():
        D.contracts[unwrap(f)] = h
    return D, I
