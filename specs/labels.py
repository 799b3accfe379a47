"""Contracts of basis labels, symbolic labels, index ranges and spin coefficients (C25).

A basis is a tuple of pairwise different labels of any length; SymPy numbers are
real numbers (Num), symbolic expressions are opaque reals that may hold index
symbols; a rendered label is the list of its literal pieces and integers (Text)."""
import ast
import functools
import importlib
from pyvc import live   # noqa: F401
import z3
import attr
import sympy
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, Term, Obj, veq, to_fl, Loop, St
from pyvc.engine import PyRaise, BoundMethod, Sym, Unsupported, PathEnd, Infeasible, SymStr, Elem, is_sym
from pyvc.source import where, unwrap
HS = importlib.import_module('qnet.algebra.core.hilbert_space_algebra')
SA = importlib.import_module('qnet.algebra.library.spin_algebra')
ST = importlib.import_module('qnet.algebra.core.state_algebra')
OA = importlib.import_module('qnet.algebra.core.operator_algebra')
AA = importlib.import_module('qnet.algebra.core.abstract_algebra')
EX = importlib.import_module('qnet.algebra.core.exceptions')
QA = importlib.import_module('qnet.algebra.core.abstract_quantum_algebra')
AP = importlib.import_module('qnet.algebra.core.algebraic_properties')
IX = importlib.import_module('qnet.utils.indices')

R = z3.RealSort()
LAB = z3.DeclareSort('Label')
SYM = z3.DeclareSort('FreeSymbol')
MAP = z3.DeclareSort('VarMap')
RENDER = z3.Function('label_of_spin', R, LAB)          # canonical spin label of a quantum number
DIGITS = z3.Function('digits', z3.IntSort(), LAB)      # str(int)
SQRT = z3.Function('sqrt', R, R)
SUBS = z3.Function('subs', R, MAP, R)
NFREE = z3.Function('nfree', R, z3.IntSort())
FREE = z3.Function('free_symbol', R, z3.IntSort(), SYM)
ISIDX = z3.Function('is_index_symbol', SYM, z3.BoolSort())
J, K = z3.Ints('j? k?')
T, F = z3.BoolVal(True), z3.BoolVal(False)


def has_idx(t):
    return z3.Exists([J], z3.And(J >= 0, J < NFREE(t), ISIDX(FREE(t, J))))


def prove_int(D, name, x):
    """x is an integer"""
    x = z3.simplify(x)
    if z3.is_true(z3.simplify(z3.IsInt(x))):
        D.prove(name, z3.BoolVal(True))
        return
    r = z3.Int('floor?')
    sol = z3.Solver()
    sol.set('timeout', 2000)
    sol.add(z3.And(z3.ToReal(r) < x, x < z3.ToReal(r) + 1))     # no r: x is an integer whatever its symbols are
    D.prove(name, z3.BoolVal(True) if sol.check() == z3.unsat else z3.IsInt(x))


class Num(Sym):
    """a SymPy expression with a real value"""

    def __init__(self, t):
        self.t = t


def real(x):
    if isinstance(x, Num):
        return x.t
    if isinstance(x, (SInt, int)) and not isinstance(x, bool):
        return z3.ToReal(zi(x))
    if isinstance(x, sympy.Rational):
        return z3.RealVal('%d/%d' % (x.p, x.q))
    raise Unsupported('number expected: %r' % (x,))


class Text(Sym):
    """a string made of literals and decimal integers"""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif not (isinstance(p, str) and p == ''):
                self.parts.append(p)

    def __repr__(self):
        return 'Text(%s)' % self.parts

    def vsub(self, pairs):
        return Text([p if isinstance(p, str) else z3.substitute(p, *pairs) for p in self.parts])


def text_eq(a, b):
    if len(a.parts) != len(b.parts) or any(isinstance(x, str) != isinstance(y, str) for x, y in zip(a.parts, b.parts)):
        return F
    return z3.And([z3.BoolVal(x == y) if isinstance(x, str) else x == y for x, y in zip(a.parts, b.parts)] + [T])


class Rng(Sym):
    """range(start, stop, step)"""

    def __init__(self, start, stop, step, fl):
        self.start, self.stop, self.step, self.fl = start, stop, step, fl


class Ind(Sym):
    """a set of numbers (FiniteSet/Interval), a condition, or an indicator function"""

    def __init__(self, kind, pred, num=None):
        self.kind, self.pred, self.num = kind, pred, num


class VarMap(Sym):
    def __init__(self, t):
        self.t = t


class LInterp(od.OInterp):
    def binop(self, op, a, b, inplace=False):
        if op is ast.Mod and isinstance(a, str) and is_sym(b):
            t = fmt(a, b if isinstance(b, tuple) else (b,))
            return t if t is not None else SymStr()
        if op is ast.Add and (isinstance(a, Text) or isinstance(b, Text)):
            f = lambda x: x.parts if isinstance(x, Text) else [x]
            return Text(f(a) + f(b))
        return super().binop(op, a, b, inplace)

    def getattr(self, o, name, env=None):
        if name == '__class__' and isinstance(o, (SInt, SBool, Term, Num)):
            return self.dom.type_of(self, o)
        return super().getattr(o, name, env)

    def equal(self, a, b):
        if isinstance(a, Text) or isinstance(b, Text):
            raise Unsupported('comparison of texts')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, FL) and isinstance(y, tuple) and y and all(isinstance(v, str) for v in y):
                c = z3.Bool(self.ctx.fresh('basis_is_literal'))
                self.ctx.assume(z3.Implies(c, zi(x.n) == len(y)))
                return SBool(c)
        return super().equal(a, b)


def fmt(s, vals):
    import re
    out, pos, vals = [], 0, list(vals)
    for m in re.finditer(r'%(.)', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        if not vals:
            return None
        v = vals.pop(0)
        if isinstance(v, int) and not isinstance(v, bool):
            out.append(str(v))
        elif isinstance(v, SInt):
            out.append(v.t)
        elif isinstance(v, Text):
            out += v.parts
        elif isinstance(v, str):
            out.append(v)
        else:
            return None
    return Text(out + [s[pos:]])


class LDomain(od.ODomain):
    """contracts used by callers are in self.contracts"""

    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.contracts[unwrap(IX.SpinIndex._static_render)] = c_render
        self.contracts[unwrap(HS.LocalSpace._unpack_basis_label_or_index)] = c_unpack
        self.classes[HS.KeyTuple] = lambda D, I, a, kw: Term(z3.Const(D.ctx.fresh('key'), od.VAL))
        self.classes[ST.BasisKet] = c_basisket

    # ---------------------------------------------------------- values
    def label(self, name='label'):
        return Term(z3.Const(self.ctx.fresh(name), LAB), cands=(str,))

    def num(self, name='x'):
        return Num(z3.Real(self.ctx.fresh(name)))

    def basis(self, name='basis', n=None):
        f = z3.Function(self.ctx.fresh(name), z3.IntSort(), LAB)
        if n is None:
            n = self.int('n', lo=0)
        n = zi(n)
        self.ctx.assume(z3.ForAll([J, K], z3.Implies(z3.And(J >= 0, J < K, K < n), f(J) != f(K))))
        return FL(n, lambda i: Term(f(zi(i)), cands=(str,)), 'tuple')

    def local(self, cls=HS.LocalSpace, basis=True):
        if not basis:
            return Obj(cls, dict(_basis=None, _dimension=None, _label='s'))
        b = self.basis()
        self.ctx.assume(zi(b.n) >= 1)
        return Obj(cls, dict(_basis=b, _dimension=SInt(zi(b.n)), _label='s'))

    def spin(self, default=False):
        """a spin space: spin s with 2s a positive integer, dimension 2s+1"""
        b = self.basis()
        n = zi(b.n)
        self.ctx.assume(n >= 2)
        s = z3.ToReal(n - 1) / 2
        if default:
            self.ctx.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), b.get(J).t == RENDER(z3.ToReal(J) - s))))
        return Obj(SA.SpinSpace, dict(_basis=b, _dimension=SInt(n), _label='s', _spin=Num(s)))

    def symlabel(self, cls, hs=None):
        e = self.num('expr')
        self.ctx.assume(has_idx(e.t))
        f = dict(expr=e)
        if hs is not None:
            f['hs'] = hs
        return Obj(cls, f)

    # ---------------------------------------------------------- protocol
    def isinstance(self, I, o, c):
        if isinstance(o, Num):
            return issubclass(sympy.Expr, c) if isinstance(c, type) else False
        if isinstance(o, (Text, SymStr)):
            return c is str or c is object
        if isinstance(o, VarMap):
            return c is dict
        if isinstance(o, Rng):
            return c is range
        return od.ODomain.isinstance(self, I, o, c)

    def term_isinstance(self, I, o, c):
        if o.t.sort() == SYM:
            if c is IX.IdxSym:
                return SBool(ISIDX(o.t))
            return issubclass(sympy.Symbol, c)
        return od.ODomain.term_isinstance(self, I, o, c)

    def type_of(self, I, o):
        if isinstance(o, Term) and o.cands:
            return o.cands[0]
        if isinstance(o, Num):
            return sympy.Expr
        return od.ODomain.type_of(self, I, o)

    def getattr(self, I, o, name):
        if isinstance(o, Num):
            if name == 'is_integer':
                self.ctx.assume(z3.Implies(z3.IsInt(o.t), z3.IsInt(2 * o.t)))
                self.ctx.assume(z3.Implies(z3.IsInt(o.t), o.t == z3.ToReal(zi(self.int('w')))))
                return SBool(z3.simplify(z3.IsInt(z3.simplify(o.t))))
            if name == 'free_symbols':
                self.ctx.assume(NFREE(o.t) >= 0)
                return FL(NFREE(o.t), lambda j: Term(FREE(o.t, zi(j))), 'list')
            return BoundMethod(o, name)
        if isinstance(o, (Text, Term, Ind, VarMap, Rng)):
            return BoundMethod(o, name)
        if isinstance(o, Obj) and name == '__class__':
            return o.cls
        if isinstance(o, Obj) and name == '__dict__':
            return o.fields
        if isinstance(o, Obj) and name not in o.fields:
            f = self.find(o.cls, name)
            if f is not None and isinstance(f[1], property) and isinstance(f[1].fget, functools.partial):
                p = f[1].fget
                return I.call_python(p.func, [o] + list(p.args), p.keywords)
        return od.ODomain.getattr(self, I, o, name)

    def call_method(self, I, m, args, kwargs):
        o = m.obj
        if isinstance(o, Num):
            if m.name == 'as_numer_denom':
                return self.numer_denom(o)
            if m.name == 'subs' and isinstance(args[0], VarMap):
                self.prove('substitution is simultaneous', z3.BoolVal(kwargs.get('simultaneous') is True))
                return Num(SUBS(o.t, args[0].t))
        if isinstance(o, VarMap) and m.name == 'get':
            return self.map_get(o, args)
        if isinstance(o, Ind) and m.name == 'contains' and o.kind == 'set':
            return Ind('cond', o.pred, args[0])
        if isinstance(o, Ind) and m.name == 'as_relational' and o.kind == 'set':
            return Ind('cond', o.pred, args[0])
        return od.ODomain.call_method(self, I, m, args, kwargs)

    def map_get(self, o, args):
        k, d = args[0], (args[1] if len(args) > 1 else None)
        c = z3.Const(self.ctx.fresh('key_in_map'), z3.BoolSort())
        if self.ctx.branch(c, 'key is mapped'):
            v = Num(z3.Real(self.ctx.fresh('mapped')))
            self.mapped = getattr(self, 'mapped', []) + [(k, v)]
            return v
        return d

    def numer_denom(self, o):
        """numerator and denominator of a rational in lowest terms"""
        p, q = self.int('numer'), self.int('denom', lo=1)
        p, q = zi(p), zi(q)
        self.ctx.assume(z3.ToReal(p) == o.t * z3.ToReal(q))
        self.ctx.assume((q == 1) == z3.IsInt(o.t))
        self.ctx.assume((q == 2) == z3.And(z3.Not(z3.IsInt(o.t)), z3.IsInt(2 * o.t)))
        self.ctx.assume(z3.Implies(q == 1, z3.ToReal(p) == o.t))
        self.ctx.assume(z3.Implies(q == 2, z3.ToReal(p) == 2 * o.t))
        a, b = Num(z3.ToReal(p)), Num(z3.ToReal(q))
        return (a, b)

    def arith(self, name, x, y):
        x, y = real(x), real(y)
        if name == '/':
            self.prove('no division by zero', y != 0)
            if not z3.is_rational_value(z3.simplify(y)):
                q = self.quotient
                self.ctx.assume(q * y == x)
                return Num(q)
        return Num({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[name]())

    def binop(self, I, name, a, b):
        if name in '+-*/' and (isinstance(a, Num) or isinstance(b, Num)) and all(isinstance(x, (Num, SInt, int, sympy.Rational)) for x in (a, b)):
            return self.arith(name, a, b)
        return od.ODomain.binop(self, I, name, a, b)

    def unary(self, I, op, v):
        if isinstance(v, Num) and op == '-':
            return Num(-v.t)
        return od.ODomain.unary(self, I, op, v)

    def compare(self, I, name, a, b):
        if isinstance(a, Num) or isinstance(b, Num):
            x, y = real(a), real(b)
            return SBool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[name])
        return od.ODomain.compare(self, I, name, a, b)

    def equal(self, I, a, b):
        if isinstance(a, Num) or isinstance(b, Num):
            if all(isinstance(x, (Num, SInt, int, sympy.Rational)) for x in (a, b)):
                return SBool(real(a) == real(b))
            return False
        if isinstance(a, Term) and isinstance(b, (str, type(None))) or isinstance(b, Term) and isinstance(a, (str, type(None))):
            return SBool(z3.Bool(self.ctx.fresh('label_is_literal')))
        return od.ODomain.equal(self, I, a, b)

    def to_int(self, I, o):
        if isinstance(o, Num):
            prove_int(self, 'int() of an integer value', o.t)
            self.ctx.assume(z3.IsInt(o.t))
            return SInt(z3.simplify(z3.ToInt(z3.simplify(o.t))))
        return od.ODomain.to_int(self, I, o)

    def str_of(self, I, o):
        if isinstance(o, SInt):
            return Text([o.t])
        if isinstance(o, (Text, Term)):
            return o
        return SymStr()

    def truth(self, I, v):
        if isinstance(v, Num):
            return self.ctx.branch(v.t != 0, 'nonzero')
        return od.ODomain.truth(self, I, v)

    def contains(self, I, c, x):
        if isinstance(c, Rng):
            return SBool(rng_has(self, c, x))
        return od.ODomain.contains(self, I, c, x)

    def length(self, I, o):
        if isinstance(o, Rng):
            return SInt(zi(o.fl.n))
        return od.ODomain.length(self, I, o)

    def listlike(self, v):
        return v.fl if isinstance(v, Rng) else od.ODomain.listlike(self, v)

    def iterate(self, I, o):
        return od.ODomain.iterate(self, I, o.fl if isinstance(o, Rng) else o)

    def pre_call(self, I, f, args, kwargs):
        if f is range and len(args) == 3:
            return mk_range(self, *args)
        if f in (list, tuple) and args and isinstance(args[0], Rng):
            return FL(args[0].fl.n, args[0].fl.get, f.__name__)
        if f is sympy.sympify and isinstance(args[0], (Num, SInt)):
            return Num(real(args[0]))
        if f is sympy.sqrt and isinstance(args[0], (Num, SInt)):
            return Num(SQRT(real(args[0])))
        if f is sympy.FiniteSet:
            fl = to_fl(args[0]) if len(args) == 1 and isinstance(args[0], FL) else None
            if fl is None:
                raise Unsupported('FiniteSet')
            return Ind('set', lambda v: z3.Exists([J], z3.And(J >= 0, J < zi(fl.n), real(fl.get(J)) == v)))
        if f is sympy.Interval:
            lo, hi = args
            return Ind('set', lambda v: z3.And(v >= real(lo), T if hi is sympy.oo else v <= real(hi)))
        if f is sympy.Piecewise:
            return self.piecewise(args)
        if getattr(f, '__name__', '') == 'match' and type(getattr(f, '__self__', None)).__name__ == 'Pattern':
            return True              # labels are taken to have the documented form
        if f is attr.evolve:
            o = args[0]
            n = Obj(o.cls, dict(o.fields))
            n.fields.update(kwargs)
            return n
        return od.ODomain.pre_call(self, I, f, args, kwargs)

    def piecewise(self, args):
        (one, c), (zero, els) = args
        if not (isinstance(c, Ind) and c.kind == 'cond' and els is True and isinstance(one, int) and isinstance(zero, int)):
            raise Unsupported('Piecewise')
        return Ind('fn', lambda v: z3.If(c.pred(v), z3.IntVal(one), z3.IntVal(zero)), c.num)

    def construct(self, I, cls, args, kwargs):
        if attr.has(cls):
            o = Obj(cls)
            names = [a.name for a in attr.fields(cls)]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for a in attr.fields(cls):
                if a.name not in vals:
                    if a.default is attr.NOTHING:
                        raise PyRaise(TypeError, 'missing ' + a.name)
                    vals[a.name] = a.default
            o.fields.update(vals)
            return o
        return od.ODomain.construct(self, I, cls, args, kwargs)

    def for_hook(self, I, s, env, it):
        if isinstance(it, Rng):
            it = it.fl
        if isinstance(it, FL) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) and not s.orelse:
            def run():
                y = I._yield_env(env)
                # the element at position j, whenever it is asked for
                y.append(FL(it.n, lambda j: self.yielded(I, s, env, it.get(j))))
            return run
        return od.ODomain.for_hook(self, I, s, env, it)

    def yielded(self, I, s, env, v):
        I.assign(s.target, v, env)
        return I.eval(s.body[0].value.value, env)

    def loop_hook(self, I, s, env):
        if isinstance(s.test, ast.Constant) and s.test.value is True:
            return lambda: self.forever(I, s, env)
        return od.ODomain.loop_hook(self, I, s, env)

    def forever(self, I, s, env):
        """while True: one yield per iteration; the counter is the number of yields so far"""
        names = [n.target.id for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)]
        y = I._yield_env(env)
        if len(names) != 1 or y:
            raise Unsupported('endless loop')
        nm = names[0]
        self.prove('loop invariant holds initially: counter = number of yields', zi(I.lookup(nm, env)) == 0)
        k = self.int('k', lo=0)
        I.bind(nm, k, env)
        I.exec_block(s.body, env)
        self.prove('one element per iteration', z3.BoolVal(len(y) == 1))
        self.prove('loop invariant preserved: counter = number of yields', zi(I.lookup(nm, env)) == zi(k) + 1)
        self.endless = (zi(k), y[0].v)
        del y[:]

    def keep_star(self, v):
        return isinstance(v, Rng) or od.ODomain.keep_star(self, v)

    def is_(self, I, a, b):
        if a is b:
            return True
        if isinstance(a, (Num, Term, Text, Rng)) or isinstance(b, (Num, Term, Text, Rng)):
            return False
        return od.ODomain.is_(self, I, a, b)


def mk_range(D, a, b, s):
    """range(a, b, s): the elements a + i*s that lie before b"""
    a, b, s = zi(a), zi(b), zi(s)
    D.prove('step of a range is not zero', s != 0)
    if D.ctx.branch(s > 0, 'step positive'):
        sg = 1
    else:
        sg = -1
    n = D.int('len', lo=0)
    t = zi(n)
    if z3.is_int_value(z3.simplify(s)) and z3.simplify(s).as_long() == 1:
        D.ctx.assume(t == z3.If(b > a, b - a, 0))
    before = (lambda x: x < b) if sg > 0 else (lambda x: x > b)
    D.ctx.assume(z3.Implies(t == 0, z3.Not(before(a))))
    D.ctx.assume(z3.Implies(t > 0, z3.And(before(a + (t - 1) * s), z3.Not(before(a + t * s)))))
    D.ctx.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < t), before(a + J * s))))
    r = Rng(a, b, s, FL(t, lambda j: SInt(z3.simplify(a + zi(j) * s)), 'list'))
    D.ranges = getattr(D, 'ranges', []) + [r]
    return r


def rng_has(D, r, x):
    v = zi(x)
    return z3.Exists([J], z3.And(J >= 0, J < zi(r.fl.n), v == r.start + J * r.step))


# ---------------------------------------------------------------- contracts for callers

def c_render(D, I, a, kw):
    x = a[-1]
    prove_int(D, 'quantum number is a half-integer', 2 * real(x))
    return Term(RENDER(real(x)), cands=(str,))


def c_unpack(D, I, a, kw):
    """position and label, or an exception when the label or position is not in the space"""
    hs, x = a
    b = hs.fields['_basis']
    types_ = I.getattr(hs, '_basis_label_types')
    if not I.truth(I.call(isinstance, [x, types_], {})):
        raise PyRaise(TypeError, '')
    if isinstance(x, Term):
        if b is None:
            raise PyRaise(EX.BasisNotSetError, '')
        i = D.fl_method(I, b, 'index', [x], {})
        return (x, i)
    if isinstance(x, (SInt, int)):
        if not D.ctx.branch(zi(x) >= 0 if b is None else z3.And(zi(x) >= 0, zi(x) < zi(b.n)), 'position in the space'):
            raise PyRaise(ValueError, '')
        return (b.get(zi(x)) if b is not None else Text([zi(x)]), x)
    return (x, I.getattr(x, 'fock_index'))


def c_basisket(D, I, a, kw):
    hs = kw['hs']
    l, i = c_unpack(D, I, [hs, a[0]], {})
    return Obj(ST.BasisKet, dict(_label=l, _index=i, _hs=hs, ctor=True))


def setup(ctx, drop=()):
    D = LDomain(ctx)
    for f in drop:
        D.contracts.pop(unwrap(f), None)
    I = LInterp(ctx, D)
    return D, I


def call(D, I, o, name, *args, **kw):
    k, f = D.find(o.cls, name)
    return I.call_python(unwrap(f), [o] + list(args), kw, k)


def chunk(r):
    return r.chunks[0] if hasattr(r, 'chunks') else to_fl(r)


def in_range(D, i, b):
    return z3.And(zi(i) >= 0, zi(i) < zi(b.n))


# ---------------------------------------------------------------- tasks

def t_unpack(ctx):
    """labels map to positions and back"""
    D, I = setup(ctx, [HS.LocalSpace._unpack_basis_label_or_index])
    w = ctx.choose(3, 'space')
    hs = [lambda: D.local(), lambda: D.local(basis=False), lambda: D.spin()][w]()
    b = hs.fields['_basis']
    how = ctx.choose(3, 'label, index, symbolic')
    if how == 0:
        x = D.label()
    elif how == 1:
        x = D.int('k')
    else:
        c = [IX.FockIndex, IX.FockLabel, IX.SpinIndex, IX.IntIndex, IX.StrLabel][ctx.choose(5, 'class')]
        x = D.symlabel(c, hs if c in (IX.FockLabel, IX.SpinIndex) else None)
    member = z3.Exists([J], z3.And(J >= 0, J < zi(b.n), b.get(J).t == x.t)) if how == 0 and b is not None else None
    ok_type = {0: True, 1: w != 2, 2: isinstance(x, Obj) and issubclass(x.cls, (IX.SpinIndex,) if w == 2 else (IX.FockIndex, IX.FockLabel))}[how]
    try:
        r = call(D, I, hs, '_unpack_basis_label_or_index', x)
    except PyRaise as e:
        if issubclass(e.exc_type, TypeError):
            D.prove('type of the label not allowed', z3.BoolVal(not ok_type))
        elif issubclass(e.exc_type, EX.BasisNotSetError):
            D.prove('no basis', z3.BoolVal(b is None and how == 0))
        elif issubclass(e.exc_type, ValueError) and how == 0 and member is not None:
            D.prove('rejected only if not a label', z3.Not(member))
        elif issubclass(e.exc_type, ValueError) and how == 1:
            D.prove('rejected only if outside the space', z3.Not(in_range(D, x, b)) if b is not None else zi(x) < 0)
        else:
            raise
        return
    D.prove('accepted type', z3.BoolVal(ok_type))
    lab, ind = r
    if how == 2:
        D.prove('label kept', z3.BoolVal(lab is x))
        e = real(x.fields['expr']) + (real(hs.fields['_spin']) if x.cls is IX.SpinIndex else 0)
        D.prove('position of the symbolic label', real(ind) == e)
        return
    if b is None:
        D.prove('position', z3.And(zi(ind) == zi(x), zi(x) >= 0))
        D.prove('label is the position', text_eq(lab if isinstance(lab, Text) else Text(['?']), Text([zi(x)])))
        return
    D.prove('position inside the space', in_range(D, ind, b))
    D.prove('label at that position', veq(lab, b.get(zi(ind))))
    D.prove('position of the argument', veq(lab, x) if how == 0 else zi(ind) == zi(x))


def nextlabel(cls):
    def t(ctx):
        D, I = setup(ctx)
        spin = cls is SA.SpinSpace
        hs = D.spin() if spin else D.local(basis=ctx.choose(2, 'with basis') == 0)
        b = hs.fields['_basis']
        n = D.int('shift')
        how = ctx.choose(3, 'label, index, symbolic')
        if how == 0:
            x = D.label()
        elif how == 1:
            x = D.int('k')
            ctx.assume(in_range(D, x, b) if b is not None else zi(x) >= 0)
        else:
            c = IX.SpinIndex if spin else [IX.FockIndex, IX.FockLabel][ctx.choose(2, 'class')]
            x = D.symlabel(c, hs if c is not IX.FockIndex else None)
        try:
            r = call(D, I, hs, 'next_basis_label_or_index', x, n)
        except PyRaise as e:
            if issubclass(e.exc_type, IndexError) and how == 1:
                t_ = zi(x) + zi(n)
                D.prove('only out of the space', t_ < 0 if b is None else z3.Or(t_ < 0, t_ >= zi(b.n)))
            elif issubclass(e.exc_type, IndexError) and how == 0:
                D.prove('only out of the space', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(b.n), b.get(J).t == x.t),
                                                                          z3.Or(J + zi(n) < 0, J + zi(n) >= zi(b.n)))))
            elif issubclass(e.exc_type, ValueError) and how == 0 and b is not None:
                D.prove('only if not a label', z3.Not(z3.Exists([J], z3.And(J >= 0, J < zi(b.n), b.get(J).t == x.t))))
            elif issubclass(e.exc_type, EX.BasisNotSetError):
                D.prove('no basis', z3.BoolVal(b is None and how == 0))
            else:
                raise
            return
        if how == 2:
            ok = isinstance(r, Obj) and r.cls is x.cls and r.fields.get('hs') is x.fields.get('hs')
            D.prove('same kind of label on the same space', z3.BoolVal(ok))
            if ok:
                D.prove('shifted expression', real(r.fields['expr']) == real(x.fields['expr']) + z3.ToReal(zi(n)))
            return
        if how == 1 and not spin:
            D.prove('shifted index', zi(r) == zi(x) + zi(n))
            D.prove('inside the space', in_range(D, r, b) if b is not None else zi(r) >= 0)
            return
        if not isinstance(r, Term):
            raise Unsupported('result %r' % (r,))
        if how == 1:
            t_ = zi(x) + zi(n)
            D.prove('label of the shifted position', z3.And(t_ >= 0, t_ < zi(b.n), r.t == b.get(t_).t))
        else:
            D.prove('label shifted by the amount', z3.Exists([J], z3.And(J >= 0, J < zi(b.n), b.get(J).t == x.t, J + zi(n) >= 0, J + zi(n) < zi(b.n),
                                                                         r.t == b.get(J + zi(n)).t)))
    return t


def t_ket_next(prev):
    def t(ctx):
        D, I = setup(ctx)
        spin = ctx.choose(2, 'spin') == 1
        hs = D.spin() if spin else D.local(basis=ctx.choose(2, 'with basis') == 0)
        b = hs.fields['_basis']
        n = D.int('shift')
        if ctx.choose(2, 'symbolic'):
            c = IX.SpinIndex if spin else IX.FockIndex
            lab = D.symlabel(c, hs if c is not IX.FockIndex else None)
            ind = I.getattr(lab, 'fock_index')
        else:
            ind = D.int('k')
            ctx.assume(in_range(D, ind, b) if b is not None else zi(ind) >= 0)
            lab = b.get(zi(ind)) if b is not None else Text([zi(ind)])
        k = Obj(ST.BasisKet, dict(_label=lab, _index=ind, _hs=hs, ctor=True))
        r = call(D, I, k, 'prev' if prev else 'next', n)
        sh = -zi(n) if prev else zi(n)
        if r is ST.ZeroKet:
            D.prove('zero only outside the space', z3.Or(zi(ind) + sh < 0, F if b is None else zi(ind) + sh >= zi(b.n)) if not isinstance(lab, Obj) else F)
            return
        if not (isinstance(r, Obj) and r.cls is ST.BasisKet):
            raise Unsupported('result %r' % (r,))
        D.prove('same space', z3.BoolVal(r.fields['_hs'] is hs))
        D.prove('shifted position', real(r.fields['_index']) == real(ind) + z3.ToReal(sh))
    return t


def t_basis_state(ctx):
    D, I = setup(ctx)
    hs = D.local(basis=ctx.choose(2, 'with basis') == 0)
    b = hs.fields['_basis']
    x = D.label() if ctx.choose(2, 'index') == 0 else D.int('k')
    try:
        r = call(D, I, hs, 'basis_state', x)
    except PyRaise as e:
        if issubclass(e.exc_type, KeyError) and isinstance(x, Term):
            D.prove('only if not a label', z3.Not(z3.Exists([J], z3.And(J >= 0, J < zi(b.n), b.get(J).t == x.t))))
        elif issubclass(e.exc_type, EX.BasisNotSetError):
            D.prove('no basis', z3.BoolVal(b is None and isinstance(x, Term)))
        elif issubclass(e.exc_type, IndexError) and isinstance(x, SInt):
            D.prove('only outside the space', z3.Not(in_range(D, x, b)) if b is not None else zi(x) < 0)
        else:
            raise
        return
    if not (isinstance(r, Obj) and r.cls is ST.BasisKet):
        raise Unsupported('result %r' % (r,))
    D.prove('state of that space', z3.BoolVal(r.fields['_hs'] is hs))
    if isinstance(x, SInt):
        D.prove('position', zi(r.fields['_index']) == zi(x))
    else:
        D.prove('label', veq(r.fields['_label'], x))


def t_index_states(ctx):
    D, I = setup(ctx)
    hs = D.local()
    b = hs.fields['_basis']
    i = D.int('k')
    ctx.assume(in_range(D, i, b))
    k, f = D.find(HS.LocalSpace, 'basis_states')
    r = I.call_python(f.fget, [hs], {}, k)
    r = chunk(r)
    D.prove('as many states as labels', zi(r.n) == zi(b.n))
    x = r.get(zi(i))
    D.prove('position', zi(x.fields['_index']) == zi(i))
    D.prove('space', z3.BoolVal(x.fields['_hs'] is hs))


def canon(x):
    """the canonical text of a quantum number and the condition under which it applies"""
    i = z3.ToInt(x)
    p = z3.ToInt(2 * x)
    return [(z3.And(z3.IsInt(x), x > 0), Text(['+', i])), (z3.And(z3.IsInt(x), x <= 0), Text([i])),
            (z3.And(z3.Not(z3.IsInt(x)), z3.IsInt(2 * x), x > 0), Text(['+', p, '/2'])),
            (z3.And(z3.Not(z3.IsInt(x)), z3.IsInt(2 * x), x < 0), Text([p, '/2']))]


def literal(t):
    """integers with a known value become literals"""
    return t


def t_render(ctx):
    D, I = setup(ctx, [IX.SpinIndex._static_render])
    x = D.num('m')
    try:
        r = I.call_python(unwrap(IX.SpinIndex._static_render), [x], {})
    except PyRaise as e:
        if issubclass(e.exc_type, ValueError):
            D.prove('only if not a half-integer', z3.Not(z3.IsInt(2 * x.t)))
            return
        raise
    D.prove('integer or half-integer', z3.IsInt(2 * x.t))
    if not isinstance(r, Text):
        raise Unsupported('result %r' % (r,))
    r = D_norm(D, r)
    for c, w in canon(x.t):
        m = ctx.mark()
        ctx.assume(c)
        if ctx.solver.check() != z3.unsat:
            D.prove('canonical label', text_eq(r, w))
        ctx.undo(m)


def D_norm(D, t):
    """/2 written as a number"""
    out = []
    for p in t.parts:
        if not isinstance(p, str) and D.entails(p == 2) and out and isinstance(out[-1], str) and out[-1].endswith('/'):
            p = '2'
        out.append(p)
    return Text(out)


def t_render_injective(ctx):
    """lemma: different quantum numbers have different canonical labels"""
    D, I = setup(ctx)
    x, y = D.num('m').t, D.num('m2').t
    for c, s in canon(x):
        for d, u in canon(y):
            D.prove('different numbers, different labels', z3.Implies(z3.And(c, d, text_eq(s, u)), x == y))


def substitution(cls):
    def t(ctx):
        D, I = setup(ctx)
        hs = None
        if cls is IX.FockLabel:
            hs = D.local()
        if cls is IX.SpinIndex:
            hs = D.spin(default=True)
        new_hs = hs
        if hs is not None:
            # substitution in a space gives the space with the same basis
            new_hs = Obj(hs.cls, dict(hs.fields))
            D.contracts[unwrap(AA.Expression.substitute)] = lambda D_, I_, a, kw: new_hs
        x = D.symlabel(cls, hs)
        m = VarMap(z3.Const(ctx.fresh('map'), MAP))
        v = SUBS(real(x.fields['expr']), m.t)
        ctx.assume(z3.Implies(z3.Not(has_idx(v)), z3.IsInt(v) if cls is not IX.SpinIndex else z3.IsInt(2 * v)))
        try:
            r = call(D, I, x, 'substitute', m)
        except PyRaise as e:
            if issubclass(e.exc_type, IndexError) and cls is IX.FockLabel:
                D.prove('only outside the space', z3.And(z3.Not(has_idx(v)), z3.Or(v < 0, v >= z3.ToReal(zi(hs.fields['_basis'].n)))))
                return
            raise
        if isinstance(r, Obj):
            ok = r.cls is cls and (hs is None or r.fields.get('hs') is new_hs)
            D.prove('same kind of label', z3.BoolVal(ok))
            D.prove('partial substitution', z3.And(has_idx(v), real(r.fields['expr']) == v))
            return
        D.prove('fully substituted', z3.Not(has_idx(v)))
        if cls in (IX.IntIndex, IX.FockIndex):
            D.prove('the integer', z3.ToReal(zi(r)) == v)
        elif cls is IX.FockLabel:
            b = hs.fields['_basis']
            D.prove('label at the position', z3.And(v >= 0, v < z3.ToReal(zi(b.n)), r.t == b.get(z3.ToInt(v)).t))
        else:
            D.prove('label of the quantum number', r.t == RENDER(v))
            b = hs.fields['_basis']
            n = zi(b.n)
            p = v + real(hs.fields['_spin'])
            D.prove('label at the position of the space', z3.Implies(z3.And(z3.IsInt(p), p >= 0, p < z3.ToReal(n)), r.t == b.get(z3.ToInt(p)).t))
    return t


def t_fock_index(ctx):
    D, I = setup(ctx)
    c = [IX.FockIndex, IX.FockLabel, IX.SpinIndex][ctx.choose(3, 'class')]
    hs = D.spin() if c is IX.SpinIndex else D.local()
    x = D.symlabel(c, hs if c is not IX.FockIndex else None)
    r = I.getattr(x, 'fock_index')
    D.prove('position', real(r) == real(x.fields['expr']) + (real(hs.fields['_spin']) if c is IX.SpinIndex else 0))


# ranges

def rng_obj(D, ctx, cls):
    """an index range and the set of its values"""
    s = 'SYMBOL'
    if cls is IX.IndexOverList:
        fl = D.intlist('values', kind='tuple')
        o = Obj(cls, dict(index_symbol=s, values=fl))
        return o, lambda v: z3.Exists([J], z3.And(J >= 0, J < zi(fl.n), zi(fl.get(J)) == v)), zi(fl.n), lambda j: zi(fl.get(j))
    if cls is IX.IndexOverRange:
        a, b, st = D.int('start'), D.int('to'), D.int('step')
        ctx.assume(zi(st) != 0)
        o = Obj(cls, dict(index_symbol=s, start_from=a, to=b, step=st))
        up = lambda v: z3.If(zi(st) > 0, v <= zi(b), v >= zi(b))
        has = lambda v: z3.Exists([J], z3.And(J >= 0, v == zi(a) + J * zi(st), up(v)))
        return o, has, None, lambda j: zi(a) + zi(j) * zi(st)
    hs = D.local(basis=ctx.choose(2, 'with basis') == 0)
    o = Obj(cls, dict(index_symbol=s, hs=hs))
    b = hs.fields['_basis']
    return o, (lambda v: z3.And(v >= 0, T if b is None else v < zi(b.n))), zi(b.n) if b is not None else 'oo', lambda j: zi(j)


def last_ok(o, n):
    """n elements of an inclusive range: the last is inside, the next is outside"""
    a, b, s = (zi(o.fields[k]) for k in ('start_from', 'to', 'step'))
    ins = lambda v: z3.If(s > 0, v <= b, v >= b)
    return z3.And(n >= 0, z3.Implies(n > 0, ins(a + (n - 1) * s)), z3.Not(ins(a + n * s)))


def t_iter(cls):
    def t(ctx):
        D, I = setup(ctx)
        o, has, n, val = rng_obj(D, ctx, cls)
        r = call(D, I, o, 'iter')
        if isinstance(n, str):
            k, v = D.endless
            D.prove('element', z3.BoolVal(list(v) == ['SYMBOL']))
            D.prove('value', zi(v['SYMBOL']) == val(k))
            return
        r = chunk(r)
        D.prove('number of elements', zi(r.n) == n if n is not None else last_ok(o, zi(r.n)))
        j = D.int('j')
        ctx.assume(z3.And(zi(j) >= 0, zi(j) < zi(r.n)))
        v = r.get(zi(j))
        D.prove('one symbol per element', z3.BoolVal(isinstance(v, dict) and list(v) == ['SYMBOL']))
        D.prove('value', zi(v['SYMBOL']) == val(zi(j)))
    return t


def t_len(cls):
    def t(ctx):
        D, I = setup(ctx)
        o, has, n, val = rng_obj(D, ctx, cls)
        if isinstance(n, str):
            return
        r = call(D, I, o, '__len__')
        D.prove('length', zi(r) == n if n is not None else last_ok(o, zi(r)))
    return t


def t_contains(cls):
    def t(ctx):
        D, I = setup(ctx)
        o, has, n, val = rng_obj(D, ctx, cls)
        v = D.int('v')
        r = call(D, I, o, '__contains__', v)
        f = r.t if isinstance(r, SBool) else z3.BoolVal(bool(I.truth(r)))
        same_values(D, 'membership', o, f, has, zi(v))
    return t


def same_values(D, name, o, f, has, v):
    if o.cls is not IX.IndexOverRange:
        D.prove(name, f == has(v))
        return
    ctx = D.ctx
    a, s = zi(o.fields['start_from']), zi(o.fields['step'])
    b = zi(o.fields['to'])
    # inside -> member
    j = D.int('w')
    m = ctx.mark()
    ctx.assume(z3.And(zi(j) >= 0, v == a + zi(j) * s, z3.If(s > 0, v <= b, v >= b)))
    for r in getattr(D, 'ranges', []):
        n = zi(r.fl.n)
        lemma(D, name + ': multiples of the step are ordered', z3.And(z3.Implies(z3.And(zi(j) >= n, s > 0), zi(j) * s >= n * s),
                                                                      z3.Implies(z3.And(zi(j) >= n, s < 0), zi(j) * s <= n * s)))
        D.given(name + ': position inside', zi(j) < n)
    D.prove(name + ': every value of the range', f)
    ctx.undo(m)
    m = ctx.mark()
    ctx.assume(f)
    D.prove(name + ': only values of the range', has(v))
    ctx.undo(m)


def lemma(D, name, f):
    """a fact of integer arithmetic, proved without the context"""
    sol = z3.Solver()
    sol.set('timeout', 15000)
    sol.add(z3.Not(f))
    if sol.check() == z3.unsat:
        D.ctx.assume(f)
    else:
        D.prove(name, f)


def t_piecewise(cls):
    def t(ctx):
        D, I = setup(ctx)
        o, has, n, val = rng_obj(D, ctx, cls)
        e = D.num('e')
        r = call(D, I, o, 'piecewise_one', e)
        if not (isinstance(r, Ind) and r.kind == 'fn'):
            raise Unsupported('result %r' % (r,))
        D.prove('of the expression', z3.BoolVal(r.num is e))
        v = D.int('v')
        p = r.pred(z3.ToReal(zi(v)))
        D.prove('zero or one', z3.Or(p == 0, p == 1))
        same_values(D, 'one inside the range', o, p == 1, has, zi(v))
    return t


# spin coefficients

def coeff(fn, f):
    def t(ctx):
        D, I = setup(ctx)
        ls = D.spin()
        b = ls.fields['_basis']
        s = real(ls.fields['_spin'])
        shift = ctx.choose(2, 'shift') == 1
        how = ctx.choose(3, 'label, int, number or symbolic index')
        if how == 0:
            x = D.label()
        elif how == 1:
            x = D.int('m')
        else:
            x = D.num('m')
        if how == 1 and shift:
            ctx.assume(in_range(D, x, b))
        try:
            r = I.call_python(fn, [ls, x], dict(shift=shift))
        except PyRaise as e:
            if issubclass(e.exc_type, ValueError) and how == 0:
                D.prove('only if not a label', z3.Not(z3.Exists([J], z3.And(J >= 0, J < zi(b.n), b.get(J).t == x.t))))
                return
            raise
        if how == 0:
            k = D.int('pos')
            ctx.assume(z3.And(in_range(D, k, b), b.get(zi(k)).t == x.t))
            m = z3.ToReal(zi(k)) - s
        elif how == 1:
            m = z3.ToReal(zi(x)) - (s if shift else 0)
        else:
            m = x.t - (s if shift else 0)
        f(D, real(r), s, m)
    return t


def f_jz(D, r, s, m):
    D.prove('eigenvalue m', r == m)


def f_ladder(sg):
    def f(D, r, s, m):
        # the argument of the square root
        args = [t for t in sqrt_args(r)]
        if len(args) != 1 or not r.eq(SQRT(args[0])):
            D.prove('square root of s(s+1) - m(m%+d)' % sg, r == SQRT(s * (s + 1) - m * (m + sg)))
            return
        D.prove('square root of s(s+1) - m(m%+d)' % sg, args[0] == s * (s + 1) - m * (m + sg))
    return f


def sqrt_args(t):
    if z3.is_app(t) and t.decl().eq(SQRT):
        yield t.arg(0)
    for c in t.children():
        yield from sqrt_args(c)


# constructors

def half_integer(s):
    return not z3.is_const(s)


def t_spin_init(ctx):
    """default basis, dimension and multiplicity of a spin space"""
    D, I = setup(ctx)
    how = ctx.choose(2, 'number, tuple')
    got = {}

    def c_super(D_, I_, a, kw):
        got.update(kw)
        b = kw['basis']
        a[0].fields.update(_basis=b, _dimension=kw['dimension'], _sorted_local_identifiers=(), _order_index=None, _label=kw['label'])
    D.contracts[unwrap(HS.LocalSpace.__init__)] = c_super
    o = Obj(SA.SpinSpace)
    if how == 0:
        sp = D.num('spin') if ctx.choose(2, 'half-integer') else Num(z3.ToReal(zi(D.int('twice'))) / 2)
        s = sp.t
        if not half_integer(s):
            ctx.assume(z3.Not(z3.IsInt(2 * s)))
    else:
        p, q = D.int('p'), D.int('q', lo=1)
        sp = (p, q)
        s = D.quotient = z3.Real(ctx.fresh('spin')) if ctx.choose(2, 'half-integer') else z3.ToReal(zi(D.int('twice'))) / 2
        if not half_integer(s):
            ctx.assume(z3.Not(z3.IsInt(2 * s)))
    custom = ctx.choose(2, 'custom basis') == 1
    basis = D.basis() if custom else None
    k, f = D.find(SA.SpinSpace, '__init__')
    try:
        I.call_python(unwrap(f), [o, 'label'], dict(spin=sp, basis=basis), k)
    except PyRaise as e:
        if issubclass(e.exc_type, ValueError):
            D.prove('rejected only when not a positive half-integer', z3.Or(z3.Not(z3.IsInt(2 * s)), s <= 0, z3.BoolVal(custom)))
            return
        raise
    D.prove('spin is a positive half-integer', z3.And(z3.IsInt(2 * s), s > 0))
    D.prove('dimension 2s+1', z3.ToReal(zi(got['dimension'])) == 2 * s + 1)
    D.prove('spin', real(I.getattr(o, 'spin')) == s)
    D.prove('multiplicity 2s+1', z3.ToReal(zi(I.getattr(o, 'multiplicity'))) == 2 * s + 1)
    if custom:
        D.prove('basis as given', z3.BoolVal(got['basis'] is basis))
        return
    b = to_fl(got['basis'])
    D.prove('2s+1 labels', z3.ToReal(zi(b.n)) == 2 * s + 1)
    j = D.int('j')
    ctx.assume(in_range(D, j, b))
    D.prove('label of each position', b.get(zi(j)).t == RENDER(z3.ToReal(zi(j)) - s))


def t_spin_ket(ctx):
    """SpinBasisKet gives the state with that quantum number"""
    D, I = setup(ctx)
    hs = D.spin(default=True)
    s = real(hs.fields['_spin'])
    got = []

    def c_ket(D_, I_, a, kw):
        got.append((a[0], kw['hs']))
        return Obj(ST.BasisKet, dict(_hs=kw['hs']))
    D.classes[ST.BasisKet] = c_ket
    two = ctx.choose(2, 'one or two arguments') == 1
    p, q = D.int('p'), D.int('q')
    m = z3.ToReal(zi(p)) / (2 if two else 1)
    try:
        I.call_python(SA.SpinBasisKet, [p, q] if two else [p], dict(hs=hs))
    except PyRaise as e:
        if issubclass(e.exc_type, TypeError):
            D.prove('wrong number of arguments', z3.IsInt(s) == z3.BoolVal(two))
            return
        if issubclass(e.exc_type, ValueError):
            D.prove('outside the space', z3.Or(m < -s, m > s, z3.And(z3.BoolVal(two), zi(q) != 2)))
            return
        raise
    D.prove('number of arguments', z3.IsInt(s) == z3.BoolVal(not two))
    D.prove('inside the space', z3.And(m >= -s, m <= s))
    t, h = got[0]
    D.prove('space', z3.BoolVal(h is hs))
    if not isinstance(t, Text):
        raise Unsupported('label %r' % (t,))
    # p odd for half-integer spin, else the label is rejected by BasisKet
    for c, w in canon(m):
        mk = ctx.mark()
        ctx.assume(c)
        if two:
            ctx.assume(z3.Not(z3.IsInt(m)))
        if ctx.solver.check() != z3.unsat:
            D.prove('label of the quantum number', text_eq(t, w))
        ctx.undo(mk)


# states and transition operators

def any_label(D, ctx, hs, idx=True):
    """(argument, its position as a real, its label)"""
    b = hs.fields['_basis']
    spin = hs.cls is SA.SpinSpace
    ch = ctx.choose(3 if idx else 2, 'symbolic, label, index')
    if ch == 0:
        c = IX.SpinIndex if spin else IX.FockIndex
        lab = D.symlabel(c, hs if spin else None)
        return lab, None, lab
    if ch == 1 and b is not None:
        k = D.int('k')
        ctx.assume(in_range(D, k, b))
        return b.get(zi(k)), z3.ToReal(zi(k)), b.get(zi(k))
    k = D.int('k')
    return k, z3.ToReal(zi(k)), None


def space_of(D, ctx):
    return [lambda: D.local(), lambda: D.local(basis=False), lambda: D.spin()][ctx.choose(3, 'space')]()


def no_init(D, cls):
    D.contracts[unwrap(cls.__init__)] = lambda D_, I_, a, kw: None
    D.contracts[unwrap(QA.QuantumExpression.__init__)] = lambda D_, I_, a, kw: None
    D.contracts[unwrap(ST.State.__init__)] = lambda D_, I_, a, kw: None


def t_ket_init(ctx):
    """a basis state knows the position and the label it was given, or is rejected"""
    D, I = setup(ctx)
    del D.classes[ST.BasisKet]
    no_init(D, AA.Expression)
    hs = space_of(D, ctx)
    b = hs.fields['_basis']
    x, pos, lab = any_label(D, ctx, hs)
    inside = T if pos is None or (isinstance(x, Term)) else in_range(D, x, b) if b is not None else zi(x) >= 0
    allowed = not (isinstance(x, SInt) and hs.cls is SA.SpinSpace)
    o = Obj(ST.BasisKet)
    try:
        I.call_python(unwrap(ST.BasisKet.__init__), [o, x], dict(hs=hs), ST.BasisKet)
    except PyRaise as e:
        if issubclass(e.exc_type, ValueError):
            D.prove('outside the space', z3.Not(inside))
        elif issubclass(e.exc_type, TypeError):
            D.prove('type not allowed', z3.BoolVal(not allowed))
        else:
            raise
        return
    D.prove('accepted', z3.And(inside, z3.BoolVal(allowed)))
    l, i = I.getattr(o, 'label'), I.getattr(o, 'index')
    D.prove('space', z3.BoolVal(I.getattr(o, 'space') is hs))
    if isinstance(x, Obj):
        D.prove('label', z3.BoolVal(l is x))
        D.prove('position', real(i) == real(I.getattr(x, 'fock_index')))
        return
    D.prove('position', real(i) == pos)
    if b is not None:
        D.prove('label', veq(l, b.get(zi(i))))
    a = I.getattr(o, 'args')
    D.prove('arguments rebuild the state', veq(a[0], b.get(zi(i))) if b is not None else zi(a[0]) == zi(x))


def sigma(D, ctx, hs, nm):
    """a label as LocalSigma stores it: (value, position)"""
    b = hs.fields['_basis']
    if ctx.choose(2, 'symbolic ' + nm):
        lab = D.symlabel(IX.SpinIndex if hs.cls is SA.SpinSpace else IX.FockIndex, hs if hs.cls is SA.SpinSpace else None)
        return lab, None
    k = D.int(nm)
    if b is not None:
        ctx.assume(in_range(D, k, b))
        return b.get(zi(k)), zi(k)
    ctx.assume(zi(k) >= 0)
    return k, zi(k)


def t_sigma_init(ctx):
    D, I = setup(ctx)
    no_init(D, AA.Expression)
    hs = space_of(D, ctx)
    b = hs.fields['_basis']
    spin = hs.cls is SA.SpinSpace
    sym = lambda nm: (D.symlabel(IX.SpinIndex if spin else IX.FockIndex, hs if spin else None), None)
    js = []
    for nm in 'jk':
        ch = ctx.choose(3, nm)
        if ch == 0:
            js.append(sym(nm))
        elif ch == 1 and b is not None:
            k = D.int(nm)
            ctx.assume(in_range(D, k, b))
            js.append((b.get(zi(k)), k))
        else:
            k = D.int(nm)
            js.append((k, k))
    ok = z3.And([T] + [in_range(D, k, b) if b is not None else zi(k) >= 0 for x, k in js if k is not None and isinstance(x, SInt)])
    allowed = not (spin and any(isinstance(x, SInt) for x, _ in js))
    o = Obj(OA.LocalSigma)
    D.dictattr = True
    try:
        I.call_python(unwrap(OA.LocalSigma.__init__), [o, js[0][0], js[1][0]], dict(hs=hs), OA.LocalSigma)
    except PyRaise as e:
        if issubclass(e.exc_type, ValueError):
            D.prove('outside the space', z3.Not(ok))
        elif issubclass(e.exc_type, TypeError):
            D.prove('type not allowed', z3.BoolVal(not allowed))
        else:
            raise
        return
    D.prove('accepted', z3.And(ok, z3.BoolVal(allowed)))
    D.prove('space', z3.BoolVal(I.getattr(o, 'space') is hs))
    for nm, (x, k) in zip('jk', js):
        ix = I.getattr(o, 'index_' + nm)
        if k is None:
            D.prove('position of the symbolic label ' + nm, real(ix) == real(I.getattr(x, 'fock_index')))
        else:
            D.prove('position of ' + nm, zi(ix) == zi(k))


def t_raise_jk(ctx):
    D, I = setup(ctx)
    hs = space_of(D, ctx)
    b = hs.fields['_basis']
    js = [sigma(D, ctx, hs, nm) for nm in 'jk']
    o = Obj(OA.LocalSigma, dict(_j=js[0][0], _k=js[1][0], _hs=hs))
    inc = [D.int('j_incr'), D.int('k_incr')]

    def c_sigma(D_, I_, a, kw):
        out = [c_unpack(D_, I_, [kw['hs'], x], {}) for x in a[-2:]]
        return Obj(OA.LocalSigma, dict(at=out, _hs=kw['hs'], given=a[-2:]))
    D.contracts[unwrap(OA.LocalSigma.create)] = c_sigma
    r = call(D, I, o, 'raise_jk', inc[0], inc[1])
    new = [None if k is None else k + zi(d) for (x, k), d in zip(js, inc)]
    ins = lambda t: T if t is None else z3.And(t >= 0, T if b is None else t < zi(b.n))
    if r is OA.ZeroOperator:
        D.prove('zero only outside the space', z3.Not(z3.And([ins(t) for t in new])))
        return
    if not (isinstance(r, Obj) and r.cls is OA.LocalSigma):
        raise Unsupported('result %r' % (r,))
    D.prove('same space', z3.BoolVal(r.fields['_hs'] is hs))
    D.prove('inside', z3.And([ins(t) for t in new]))
    for (l, i), t, (x, k), d in zip(r.fields['at'], new, js, inc):
        if t is None:
            D.prove('shifted symbolic label', real(l.fields['expr']) == real(x.fields['expr']) + z3.ToReal(zi(d)))
        else:
            D.prove('shifted position', zi(i) == t)


def t_zero_outside(ctx):
    """BasisKet.create with a position outside the space is the zero state"""
    D, I = setup(ctx)
    hs = D.local(basis=ctx.choose(2, 'with basis') == 0)
    b = hs.fields['_basis']
    x = [D.int('k'), D.label()][ctx.choose(2, 'label')]
    ops, kw = (x,), dict(hs=hs)
    r = I.call_python(AP.basis_ket_zero_outside_hs, [ST.BasisKet, ops, kw], {})
    out = z3.Not(in_range(D, x, b) if b is not None else zi(x) >= 0) if isinstance(x, SInt) else F
    if r is ST.ZeroKet:
        D.prove('zero only outside the space', out)
    else:
        D.prove('kept only inside the space', z3.Not(out))
        D.prove('arguments kept', z3.BoolVal(r[0] is ops and r[1] is kw))


def t_rng_subst(cls):
    def t(ctx):
        """only the index symbol (and values, or the space) are replaced"""
        D, I = setup(ctx)
        o, has, n, val = rng_obj(D, ctx, cls)
        m = VarMap(z3.Const(ctx.fresh('map'), MAP))
        r = call(D, I, o, 'substitute', m)
        D.prove('same kind', z3.BoolVal(isinstance(r, Obj) and r.cls is cls))
        mp = getattr(D, 'mapped', [])
        want = next((v for k, v in mp if k == 'SYMBOL'), 'SYMBOL') if all(not isinstance(k, str) or k == 'SYMBOL' for k, v in mp) else None
        D.prove('index symbol', z3.BoolVal(r.fields['index_symbol'] is want or r.fields['index_symbol'] == 'SYMBOL' == want))
        for nm in o.fields:
            if nm == 'index_symbol':
                continue
            if nm == 'hs':
                w = next((v for k, v in mp if k is o.fields['hs']), o.fields['hs'])
                D.prove('space', z3.BoolVal(r.fields['hs'] is w))
            else:
                D.prove('parameter ' + nm, z3.BoolVal(r.fields[nm] is o.fields[nm]))
    return t


def t_local_init(ctx):
    """basis and dimension of a local space"""
    D, I = setup(ctx)
    no_init(D, AA.Expression)
    basis = D.basis() if ctx.choose(2, 'basis given') else None
    dim = D.int('dim', lo=1) if ctx.choose(2, 'dimension given') else None
    o = Obj(HS.LocalSpace)
    try:
        I.call_python(unwrap(HS.LocalSpace.__init__), [o, 'label'], dict(basis=basis, dimension=dim), HS.LocalSpace)
    except PyRaise as e:
        if issubclass(e.exc_type, ValueError):
            D.prove('incompatible basis and dimension', z3.BoolVal(False) if basis is None or dim is None else zi(basis.n) != zi(dim))
            return
        raise
    b, d = o.fields['_basis'], o.fields['_dimension']
    if basis is None and dim is None:
        D.prove('no basis', z3.BoolVal(b is None and d is None))
        return
    D.prove('basis and dimension', z3.BoolVal(b is not None and d is not None))
    b = to_fl(b)
    D.prove('as many labels as dimensions', zi(b.n) == zi(d))
    D.prove('dimension as given', zi(d) == (zi(dim) if dim is not None else zi(basis.n)))
    j = D.int('j')
    ctx.assume(in_range(D, j, b))
    x = b.get(zi(j))
    if basis is None:
        D.prove('label is the position', text_eq(x, Text([zi(j)])) if isinstance(x, Text) else F)
    else:
        D.prove('label as given', veq(x, basis.get(zi(j))))


def tasks():
    L, I = HS.LocalSpace, IX
    yield 'LocalSpace._unpack_basis_label_or_index', t_unpack, where(L._unpack_basis_label_or_index)
    yield 'LocalSpace.next_basis_label_or_index', nextlabel(L), where(L.next_basis_label_or_index)
    yield 'SpinSpace.next_basis_label_or_index', nextlabel(SA.SpinSpace), where(SA.SpinSpace.next_basis_label_or_index)
    yield 'BasisKet.next', t_ket_next(False), where(ST.BasisKet.next)
    yield 'BasisKet.prev', t_ket_next(True), where(ST.BasisKet.prev)
    yield 'LocalSpace.basis_state', t_basis_state, where(L.basis_state)
    yield 'LocalSpace.basis_states', t_index_states, where(L.basis_states.fget)
    yield 'SpinIndex._static_render', t_render, where(I.SpinIndex._static_render)
    yield 'canonical spin labels are distinct', t_render_injective, where(I.SpinIndex._static_render)
    for c in (I.IntIndex, I.FockIndex, I.FockLabel, I.SpinIndex):
        yield c.__name__ + '.substitute', substitution(c), where(c.substitute)
    yield 'fock_index', t_fock_index, where(I.SpinIndex.fock_index.fget)
    for c in (I.IndexOverList, I.IndexOverRange, I.IndexOverFockSpace):
        for nm, f in (('iter', t_iter), ('__len__', t_len), ('__contains__', t_contains), ('piecewise_one', t_piecewise)):
            yield '%s.%s' % (c.__name__, nm), f(c), where(getattr(c, nm))
    yield 'Jzjmcoeff', coeff(SA.Jzjmcoeff, f_jz), where(SA.Jzjmcoeff)
    yield 'Jpjmcoeff', coeff(SA.Jpjmcoeff, f_ladder(1)), where(SA.Jpjmcoeff)
    yield 'Jmjmcoeff', coeff(SA.Jmjmcoeff, f_ladder(-1)), where(SA.Jmjmcoeff)
    yield 'LocalSpace.__init__', t_local_init, where(L.__init__)
    yield 'BasisKet.__init__', t_ket_init, where(ST.BasisKet.__init__)
    yield 'LocalSigma.__init__', t_sigma_init, where(OA.LocalSigma.__init__)
    yield 'LocalSigma.raise_jk', t_raise_jk, where(OA.LocalSigma.raise_jk)
    yield 'basis_ket_zero_outside_hs', t_zero_outside, where(AP.basis_ket_zero_outside_hs)
    for c in (I.IndexOverRange, I.IndexOverFockSpace):
        yield c.__name__ + '.substitute', t_rng_subst(c), where(c.substitute)
    yield 'SpinSpace.__init__', t_spin_init, where(SA.SpinSpace.__init__)
    yield 'SpinBasisKet', t_spin_ket, where(SA.SpinBasisKet)


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
