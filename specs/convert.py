"""Contracts of the conversions to QuTiP (C19) and to SymPy matrices (C20).

V(e)     what the expression e denotes
Q(F, v)  the matrix (vector) of v on the space F, acting as the identity on the
         factors of F that v does not act on
Contract of every conversion: the result is Q(F, V(e)).
Laws used: Q(F, .) keeps sums, products, scalar multiples and adjoints; the matrix
on F is the tensor product of the matrices on the factors of F, in order, for a
product of operators of single factors: on each factor, the product of the
operators on this factor, in order (operators on different factors commute).
The functions of QuTiP, NumPy and SymPy do what their documentation says; the
matrices of the library operators are given by entries (entries as symbolic
monomials). Assumed: the operands of a tensor product of states are in the order
of the factors, basis indices are those of the space."""
import ast
import functools
import importlib
from pyvc import live   # noqa: F401
import z3
import sympy
from pyvc import od
from pyvc.od import zi, FL, SInt, SBool, Term, Obj, Loop
from pyvc.engine import PyRaise, BoundMethod, Unsupported, Infeasible, SymStr, Seq, _Star
from pyvc.domain import Sym
from pyvc.source import where, unwrap

M = lambda n: importlib.import_module('qnet.' + n)
CQ, CS = M('convert.to_qutip'), M('convert.to_sympy_matrix')
OA, ST, SO, FK, SP, HS = M('algebra.core.operator_algebra'), M('algebra.core.state_algebra'), M('algebra.core.super_operator_algebra'), \
    M('algebra.library.fock_operators'), M('algebra.library.spin_algebra'), M('algebra.core.hilbert_space_algebra')
HS_J = SP
AA, CI, SA = M('algebra.core.abstract_algebra'), M('algebra.core.circuit_algebra'), M('algebra.core.scalar_algebra')
VAL, MAT, SPC, EXP = [z3.DeclareSort(s) for s in ('Denoted', 'Matrix', 'Space', 'Expr')]
Fn, Z, B = z3.Function, z3.IntSort(), z3.BoolSort()
T, F_ = z3.BoolVal(True), z3.BoolVal(False)
V = Fn('V', EXP, VAL)
Q = Fn('Q', SPC, VAL, MAT)
SPOF = Fn('space_of', EXP, SPC)
NFAC = Fn('number_of_factors', SPC, Z)
FAC = Fn('factor', SPC, Z, SPC)
DIM = Fn('dimension', SPC, Z)
ONE, ZERO = z3.Const('one', VAL), z3.Const('zero', VAL)
ADD, MUL, ADJ = Fn('add', VAL, VAL, VAL), Fn('mul', VAL, VAL, VAL), Fn('adj', VAL, VAL)
SCAL = Fn('scal', EXP, VAL, VAL)
MADD, MMUL, MADJ = Fn('madd', MAT, MAT, MAT), Fn('mmul', MAT, MAT, MAT), Fn('madj', MAT, MAT)
MSCAL = Fn('mscal', EXP, MAT, MAT)
EYE, NULL = Fn('eye', Z, MAT), Fn('null', Z, Z, MAT)
ISIN = Fn('is_tensor_factor_of', SPC, SPC, B)
# the k-th operand on a space, how many there are, the product of the first ones
NTH, CNT = Fn('operand_on', SPC, Z, EXP), Fn('operands_on', SPC, Z)
PROD = Fn('product_on', SPC, Z, VAL)


class Tm(Sym):
    def __init__(self, t):
        self.t = t

    def vsub(self, pairs):
        return type(self)(z3.substitute(self.t, *pairs))

    def vite(self, c, other):
        if type(other) is not type(self):
            raise Unsupported('merge of %r and %r' % (self, other))
        return type(self)(z3.If(c, self.t, other.t))

    def veq(self, other):
        return self.t == other.t if type(other) is type(self) else F_

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.t)


class Perm(Sym):
    """tensor factors rearranged"""

    def __init__(self, of, order):
        self.of, self.order = of, order


class Ex(Tm):
    """an expression"""


class Sp(Tm):
    """a space"""


class Mt(Tm):
    """a matrix"""


class Em(Sym):
    """a matrix given by its entries"""

    def __init__(self, rows, cols, get):
        self.rows, self.cols, self.get = zi(rows), zi(cols), get

    def vsub(self, pairs):
        raise Unsupported('substitution in a matrix of entries')


class Cx(Sym):
    """a complex number"""

    def __init__(self, re, im):
        self.re, self.im = re, im

    def vsub(self, pairs):
        return Cx(*[z3.substitute(x, *pairs) for x in (self.re, self.im)])


class Gen(Sym):
    """a polynomial in the creation (d) and annihilation (a) operators of n levels,
    or its exponential"""

    def __init__(self, n, terms, exp=False):
        self.n, self.terms, self.exp = n, terms, exp


class En(Tm):
    """an entry"""


class Vec(Sym):
    def __init__(self, n, get, kind='z'):
        self.n, self.get, self.kind = n, get, kind


class Lbl(Tm):
    """a basis label"""


R0 = z3.RealVal(0)
SQ = Fn('sqrt', Z, z3.RealSort())
EXPC = Fn('exp', z3.RealSort(), z3.RealSort(), z3.RealSort())
JM = {x: Fn('jmat' + x, Z, Z, Z, z3.RealSort()) for x in 'z+-'}
LABEL = z3.DeclareSort('BasisLabel')


def cx(v):
    if isinstance(v, Cx):
        return v
    if isinstance(v, SInt):
        return Cx(z3.ToReal(v.t), R0)
    if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
        v = complex(v)
        return Cx(z3.RealVal(str(sympy.Rational(v.real))), z3.RealVal(str(sympy.Rational(v.imag))))
    if v is sympy.I:
        return Cx(R0, z3.RealVal(1))
    return None


def cxop(name, a, b):
    if name == '+':
        return Cx(a.re + b.re, a.im + b.im)
    if name == '-':
        return Cx(a.re - b.re, a.im - b.im)
    if name == '*':
        return Cx(z3.simplify(a.re * b.re - a.im * b.im), z3.simplify(a.re * b.im + a.im * b.re))
    if name == '/' and z3.is_rational_value(b.re) and z3.is_true(z3.simplify(b.im == 0)):
        return Cx(a.re / b.re, a.im / b.re)
    return None


class Tensor(Mt):
    """a tensor product"""


class Opaque(Sym):
    def __init__(self, what, *args):
        self.what, self.args = what, args

    def __repr__(self):
        return '%s%r' % (self.what, self.args)


class ObjT(Obj):
    pass


def ex(v):
    if isinstance(v, Ex):
        return v.t
    if isinstance(v, Obj) and 't' in v.fields:
        return v.fields['t'].t
    raise Unsupported('expression %r' % (v,))


def sp(v):
    if isinstance(v, Sp):
        return v.t
    raise Unsupported('space %r' % (v,))


def mt(v):
    if isinstance(v, Mt):
        return v.t
    raise Unsupported('matrix %r' % (v,))


NAMES = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}


class CInterp(od.OInterp):
    def e_GeneratorExp(self, e, env):
        return super().e_GeneratorExp(e, env)

    def call(self, f, args, kwargs):
        if getattr(f, '__name__', '') == 'format' and isinstance(getattr(f, '__self__', None), str):
            return SymStr()
        if f is functools.reduce:
            a = [x.seq if isinstance(x, _Star) else x for x in args]
            return self.dom.reduce(self, a)
        if f is sum:
            return self.dom.sum(self, list(args))
        return super().call(f, args, kwargs)

    def binop(self, op, a, b, inplace=False):
        r = self.dom.local_binop(self, NAMES.get(op, op), a, b)
        if r is not None:
            return r
        return super().binop(op, a, b, inplace)


class CDomain(od.ODomain):
    kind = 'qutip'

    def __init__(self, ctx):
        super().__init__(ctx)
        ctx.solver.set('mbqi', False)
        self.retry = True
        x, y, f = z3.Const('x!', VAL), z3.Const('y!', VAL), z3.Const('f!', SPC)
        c, i = z3.Const('c!', EXP), z3.Int('i!')
        A = lambda vs, body, pat: ctx.assume(z3.ForAll(vs, body, patterns=pat))
        A([f, x, y], Q(f, ADD(x, y)) == MADD(Q(f, x), Q(f, y)), [Q(f, ADD(x, y))])
        A([f, x, y], Q(f, MUL(x, y)) == MMUL(Q(f, x), Q(f, y)), [Q(f, MUL(x, y))])
        A([f, c, x], Q(f, SCAL(c, x)) == MSCAL(c, Q(f, x)), [Q(f, SCAL(c, x))])
        A([f, x], Q(f, ADJ(x)) == MADJ(Q(f, x)), [Q(f, ADJ(x))])
        A([f], z3.And(Q(f, ONE) == EYE(DIM(f)), NFAC(f) >= 1, z3.Implies(NFAC(f) == 1, FAC(f, z3.IntVal(0)) == f)), [NFAC(f)])
        A([f], Q(f, ONE) == EYE(DIM(f)), [DIM(f)])
        A([f], Q(f, ZERO) == NULL(DIM(f), DIM(f)), [DIM(f)])
        A([x], MUL(ONE, x) == x, [MUL(ONE, x)])
        A([x], MUL(x, ONE) == x, [MUL(x, ONE)])
        A([x], ADD(ZERO, x) == x, [ADD(ZERO, x)])
        A([f], z3.And(PROD(f, 0) == ONE, CNT(f) >= 0), [CNT(f)])
        A([f, i], z3.Implies(i >= 0, PROD(f, i + 1) == MUL(PROD(f, i), V(NTH(f, i)))), [NTH(f, i)])
        A([f, i], z3.Implies(z3.And(i >= 0, i < CNT(f)), SPOF(NTH(f, i)) == f), [NTH(f, i)])
        self.F = Sp(z3.Const('F', SPC))
        self.tensors = []
        self.mapping = Opaque('mapping')

    # ---------------------------------------------------- values
    def conv(self, e, F, mapping=None):
        """contract of the conversion"""
        return Mt(Q(sp(F), V(ex(e))))

    def c_convert(self, D, I, a, kw):
        names = ['expr', 'full_space', 'mapping'] if self.kind == 'qutip' else ['expr', 'full_space']
        d = dict(zip(names, a))
        d.update(kw)
        if self.kind == 'qutip' and not self.nomap:
            self.prove('the mapping is passed on', z3.BoolVal(d.get('mapping') is self.mapping))
        e = d['expr']
        F = d.get('full_space')
        if F is None:
            F = self.getattr(I, e, 'space')
        self.prove('converted on a space that holds the expression', z3.Or(ISIN(SPOF(ex(e)), sp(F)), SPOF(ex(e)) == sp(F)))
        return self.conv(e, F)
    nomap = False

    def listlike(self, v):
        return v

    def getattr(self, I, o, name):
        if isinstance(o, Sp):
            if name == 'dimension':
                return SInt(DIM(o.t))
            if name == 'local_factors':
                f = FL(NFAC(o.t), lambda i: Sp(FAC(o.t, zi(i))), 'tuple', meta=('factors', o.t))
                return f
            if name == 'is_tensor_factor_of':
                return BoundMethod(o, name)
        if isinstance(o, Ex):
            if name == 'space':
                return Sp(SPOF(o.t))
            if name in ('expand',):
                return BoundMethod(o, name)
            raise Unsupported('attribute %s of an expression' % name)
        if isinstance(o, Obj) and name == 'space' and 'space' not in o.fields:
            return Sp(SPOF(ex(o)))
        if isinstance(o, Obj) and name == 'expand':
            return BoundMethod(o, name)
        if isinstance(o, Em):
            if name == 'H':
                f = o.get     # the entries are real
                return Em(o.cols, o.rows, lambda p, q: f(q, p))
            return BoundMethod(o, name)
        if isinstance(o, Gen):
            if name == 'H':
                t = {''.join('d' if x == 'a' else 'a' for x in reversed(w)): Cx(c.re, -c.im) for w, c in o.terms.items()}
                return Gen(o.n, t, o.exp)
            return BoundMethod(o, name)
        if isinstance(o, Cx):
            return BoundMethod(o, name)
        if isinstance(o, (Mt, Opaque)):
            if isinstance(o, Mt) and name in ('H', 'dag'):
                r = Mt(MADJ(o.t))
                return r if name == 'H' else BoundMethod(o, 'dag')
            return BoundMethod(o, name)
        return super().getattr(I, o, name)

    def call_method(self, I, m, args, kwargs):
        o = m.obj
        if isinstance(o, Sp) and m.name == 'is_tensor_factor_of':
            return SBool(ISIN(o.t, sp(args[0])))
        if m.name == 'expand' and isinstance(o, (Ex, Obj)):
            r = Ex(z3.Const(self.ctx.fresh('expanded'), EXP))
            self.fact(z3.And(V(r.t) == V(ex(o)), SPOF(r.t) == SPOF(ex(o))))
            return r
        if isinstance(o, Mt) and m.name == 'dag':
            return Mt(MADJ(o.t))
        if isinstance(o, Em) and m.name in ('dag', 'full'):
            return self.getattr(I, o, 'H') if m.name == 'dag' else o
        if isinstance(o, Gen) and m.name == 'exp':
            return Gen(o.n, o.terms, True)
        if isinstance(o, Cx) and m.name == 'conjugate':
            return Cx(o.re, -o.im)
        if isinstance(o, Tensor) and m.name == 'permute':
            return Perm(o, args[0])
        return super().call_method(I, m, args, kwargs)

    def equal(self, I, a, b):
        if isinstance(a, Sp) and isinstance(b, Sp):
            return SBool(a.t == b.t)
        if isinstance(a, Sp) or isinstance(b, Sp):
            if a is HS.TrivialSpace or b is HS.TrivialSpace:
                raise_ = z3.Bool('full_space_is_trivial')
                return SBool(raise_)
            return False
        if isinstance(a, (Ex, Obj)) and isinstance(b, (Ex, Obj)):
            return SBool(ex(a) == ex(b))
        return super().equal(I, a, b)

    def is_(self, I, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and not isinstance(y, Sym):
                return x.fields.get('is') is y and y is not None
            if isinstance(x, Sp):
                return False
        return super().is_(I, a, b)

    def length(self, I, o):
        if isinstance(o, Sp):
            return SInt(NFAC(o.t))
        return super().length(I, o)

    def keep_star(self, v):
        return isinstance(v, FL)

    # ------------------------------------------------- matrices of operators
    def unary(self, I, op, v):
        if isinstance(v, Cx) and op == '-':
            return Cx(-v.re, -v.im)
        return super().unary(I, op, v)

    def fl_method(self, I, o, name, args, kwargs):
        if name == 'index' and isinstance(args[0], Sp):
            # a space that is not in the list is refused (ValueError)
            r = self.fresh('position')
            self.fact(z3.And(self.in_range(r, o.n), od.veq(o.get(r), args[0])))
            return SInt(r)
        return super().fl_method(I, o, name, args, kwargs)

    def local_binop(self, I, name, a, b):
        kinds = (Cx, Gen, Em, En, Vec)
        if not isinstance(a, kinds) and not isinstance(b, kinds):
            if not (a is sympy.I or b is sympy.I) and not (isinstance(a, SInt) and isinstance(b, float)):
                return None
        x, y = cx(a), cx(b)
        if x is not None and y is not None:
            r = cxop(name, x, y)
            if r is not None:
                return r
        if isinstance(a, Gen) and isinstance(b, Gen) and not a.exp and not b.exp and name in '+-':
            t = dict(a.terms)
            for w, c in b.terms.items():
                t[w] = cxop(name, t.get(w, cx(0)), c)
            return Gen(a.n, t)
        if isinstance(a, Gen) and not a.exp and name == '**' and type(b) is int and b > 0:
            t = {'': cx(1)}
            for _ in range(b):
                u = {}
                for w, c in t.items():
                    for w2, c2 in a.terms.items():
                        u[w + w2] = cxop('+', u.get(w + w2, cx(0)), cxop('*', c, c2))
                t = u
            return Gen(a.n, t)
        for p, q in ((x, b), (y, a)):
            if p is not None and isinstance(q, Gen) and not q.exp and name == '*':
                return Gen(q.n, {w: cxop('*', p, c) for w, c in q.terms.items()})
            if p is not None and isinstance(q, Vec) and name == '*':
                if q.kind == 'z':
                    return Vec(q.n, lambda i: cxop('*', p, q.get(i)))
                if q.kind == 'sin' and z3.is_true(z3.simplify(z3.And(p.re == 0, p.im == 1))):
                    return Vec(q.n, q.get, 'isin')
        if isinstance(a, Vec) and isinstance(b, Vec) and name == '+' and {a.kind, b.kind} == {'cos', 'isin'}:
            # Euler's formula
            j = z3.Int(self.ctx.fresh('entry'))
            u, v = a.get(j), b.get(j)
            self.prove('cosine and sine of the same angles', z3.And(zi(a.n) == zi(b.n), u.re == v.re, u.im == v.im))
            return Vec(a.n, lambda i: En(EXPC(-a.get(i).im, a.get(i).re)), 'entry')
        if isinstance(a, Em) and isinstance(b, Em):
            if name == '+':
                self.prove('matrices of the same shape', z3.And(a.rows == b.rows, a.cols == b.cols))
                f, g = a.get, b.get
                return Em(a.rows, a.cols, lambda p, q: z3.simplify(f(p, q) + g(p, q)))
            if name == '*' and z3.is_true(z3.simplify(a.cols == 1)) and z3.is_true(z3.simplify(b.rows == 1)):
                f, g = a.get, b.get
                return Em(a.rows, b.cols, lambda p, q: f(p, z3.IntVal(0)) * g(z3.IntVal(0), q))
        for p, q in ((a, b), (b, a)):
            if isinstance(p, En) and isinstance(q, Em) and name == '*':
                f = q.get
                return Em(q.rows, q.cols, lambda r, c: p.t * f(r, c))
        raise Unsupported('operation %s on %r, %r' % (name, a, b))

    def getitem(self, I, o, i):
        if isinstance(o, Em) and isinstance(i, tuple) and i == (slice(None, None, -1),) * 2:
            f, r, c = o.get, o.rows, o.cols
            return Em(r, c, lambda p, q: f(r - 1 - p, c - 1 - q))
        if isinstance(o, Opaque) and o.what == 'mapping':
            return o.args[0](i)
        return super().getitem(I, o, i)

    def contains(self, I, c, x):
        if isinstance(c, Opaque) and c.what == 'mapping':
            return SBool(z3.Bool('in_mapping'))
        return super().contains(I, c, x)

    def setitem(self, I, o, i, v):
        if not isinstance(o, Em):
            return super().setitem(I, o, i, v)
        if not isinstance(i, tuple):
            self.prove('entry of a column', o.cols == 1)
            i = (i, 0)
        r, c = [zi(x) for x in i]
        self.prove('entry inside the matrix', z3.And(r >= 0, r < o.rows, c >= 0, c < o.cols))
        f = o.get
        if isinstance(v, int):
            v = En(z3.RealVal(v))
        if not isinstance(v, En):
            raise Unsupported('entry %r' % (v,))
        self.ctx.set_attr(o, 'get', lambda p, q: z3.If(z3.And(p == r, q == c), v.t, f(p, q)))

    def isinstance(self, I, o, c):
        if isinstance(o, Lbl):
            return c is str
        if isinstance(o, (Mt, Em)):
            return getattr(c, '__name__', '') in ('Qobj', 'MatrixBase')
        if isinstance(o, Opaque):
            return False
        return super().isinstance(I, o, c)

    def scalar(self, v):
        """the scalar of a number"""
        if isinstance(v, Opaque) and v.what == 'complex' and isinstance(v.args[0], Ex):
            return v.args[0].t
        return None

    def binop(self, I, name, a, b):
        if isinstance(a, Mt) and isinstance(b, Mt):
            if name == '+':
                return Mt(MADD(a.t, b.t))
            if name == '*':
                return Mt(MMUL(a.t, b.t))
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Mt) and name == '*':
                if x == 1 and not isinstance(x, Sym):
                    return y
                c = self.scalar(x)
                if c is not None:
                    return Mt(MSCAL(c, y.t))
            if isinstance(y, Mt) and name == '+' and x == 0 and not isinstance(x, Sym):
                return y
        return super().binop(I, name, a, b)

    # ---------------------------------------------------- folds
    def fold(self, I, f, fl, init, name):
        """the left fold of f over a list of matrices: the first, then f(., next);
        the value is stated by the caller through `fold_spec`"""
        spec = self.fold_spec(fl)
        if spec is None:
            raise Unsupported('fold of %r' % (fl,))
        n = zi(fl.n)
        k = z3.Int(self.ctx.fresh('k'))
        first = I.call(f, [init, fl.get(z3.IntVal(0))], {})
        self.prove(name + ': first', z3.Implies(n > 0, mt(first) == spec(z3.IntVal(1))))
        m = self.ctx.mark()
        self.ctx.assume(z3.And(k >= 1, k < n))
        step = I.call(f, [Mt(spec(k)), fl.get(k)], {})
        self.prove(name + ': next', mt(step) == spec(k + 1))
        self.ctx.undo(m)
        if not self.ctx.branch(n > 0, 'nonempty'):
            return init
        return Mt(spec(n))

    def sum(self, I, a):
        fl = a[0]
        if not isinstance(fl, FL):
            raise Unsupported('sum of %r' % (fl,))
        init = a[1] if len(a) > 1 else 0
        plus = types_fn(lambda x, y: I.binop(ast.Add, x, y))
        return self.fold(I, plus, fl, init, 'sum of the summands')

    def reduce(self, I, a):
        f, fl = a[0], a[1]
        if not isinstance(fl, FL) or len(a) < 3:
            raise Unsupported('reduce of %r' % (a[1:],))
        return self.fold(I, f, fl, a[2], 'product of the factors')

    def fold_spec(self, fl):
        if fl.meta and fl.meta[0] == 'operands on':
            s = fl.meta[1]
            return lambda k: Q(s, PROD(s, k))
        if self.total is not None:
            return lambda k: Q(self.F.t, self.total(k))
        return None
    total = None

    def filtered(self, I, e, g, env, it):
        """[convert(o, o.space) for o in operands if o.space == s]: the operands
        on the space s, in order"""
        if it.meta == 'operands':
            return self.operands_on(I, e, g, env, it)
        if it.meta and it.meta[0] == 'factors':
            return self.other_factors(I, e, g, env, it)
        raise Unsupported('filtered list')

    def operands_on(self, I, e, g, env, it):
        ctx = self.ctx
        o = Ex(z3.Const(ctx.fresh('operand'), EXP))

        def run():
            n0 = len(ctx.solver.assertions())
            sub = od.Env({}, env, env.globs)
            I.assign(g.target, o, sub)
            keep = all([I.truth(I.eval(c, sub)) for c in g.ifs])
            r = I.eval(e.elt, sub) if keep else None
            conds = [a for a in list(ctx.solver.assertions())[n0:] if not z3.is_quantifier(a)]
            return r, z3.And(conds + [T])
        cond, vals = F_, []
        ctx.assume(z3.Or(ISIN(SPOF(o.t), self.F.t)))
        for r in ctx.explore(run):
            if r.kind != 'ok':
                raise Unsupported('filter')
            v, c = r.value
            if v is not None:
                cond = z3.Or(cond, c)
                vals.append((v, c))
        s = self.cur_space
        self.prove('the operands on this space', cond == (SPOF(o.t) == s))
        for v, c in vals:
            self.prove('an operand is converted on its own space', z3.Implies(c, mt(v) == Q(s, V(o.t))))
        return FL(CNT(s), lambda i: Mt(Q(s, V(NTH(s, zi(i))))), 'list', meta=('operands on', s))

    def other_factors(self, I, e, g, env, it):
        raise Unsupported('filtered factors')

    # ---------------------------------------------------- tensor products
    def c_tensor(self, D, I, a, kw):
        fls = []
        for x in a:
            fls.append(x if isinstance(x, FL) else FL(z3.IntVal(1), lambda i, x=x: x, 'list'))
        if not fls:
            raise Unsupported('tensor product of nothing')
        fl = fls[0]
        for x in fls[1:]:
            fl = self.concat(fl, x)
        r = Tensor(z3.Const(self.ctx.fresh('tensor'), MAT))
        self.tensors.append((r, fl))
        return r

    def is_tensor(self, r, name, part):
        """the tensor product of the matrices of part(i), for the factors in order"""
        F = self.F.t
        for x, fl in self.tensors:
            if x is r:
                i = z3.Int('j?')     # any factor
                self.prove(name + ': a factor for every factor of the space', zi(fl.n) == NFAC(F))
                m = self.ctx.mark()
                self.ctx.assume(z3.And(i >= 0, i < NFAC(F), CNT(FAC(F, i)) >= 0))
                self.ctx.assume(z3.And(DIM(FAC(F, i)) == DIM(FAC(F, i))))
                v = fl.get(i)
                self.prove(name + ': each factor', mt(v) == Q(FAC(F, i), part(i)))
                self.ctx.undo(m)
                return True
        return False


def types_fn(f):
    f.symbolic_ok = True
    return functools.partial(f)


def setup(ctx, kind, loops=None):
    D = CDomain(ctx)
    D.kind = kind
    I = CInterp(ctx, D)
    D.attach(I)
    for (f, k), s in (loops or {}).items():
        ns = od.loops_of(f)
        if k < len(ns):
            D.loops[id(ns[k])] = s
    c = D.contracts
    c[str] = lambda D1, I1, a, kw: SymStr()
    c[complex] = lambda D1, I1, a, kw: Opaque('complex', a[0])
    if kind == 'qutip':
        q = CQ.qutip
        c[unwrap(CQ.convert_to_qutip)] = D.c_convert
        c[unwrap(q.tensor)] = D.c_tensor
        c[unwrap(q.qeye)] = lambda D1, I1, a, kw: Mt(EYE(zi(a[0])))
        D.classes[q.Qobj] = lambda D1, I1, a, kw: qobj(D, a[0])
        D.classes[CQ.csr_matrix] = lambda D1, I1, a, kw: Mt(NULL(zi(a[0][0]), zi(a[0][1])))
    else:
        c[unwrap(CS.convert_to_sympy_matrix)] = D.c_convert
        D.classes[CS.tensor] = D.c_tensor
        c[unwrap(sympy.eye)] = lambda D1, I1, a, kw: Mt(EYE(zi(a[0])))
    return D, I


def qobj(D, v):
    if isinstance(v, Mt):
        return v
    raise Unsupported('Qobj of %r' % (v,))


def expr(cls, **kw):
    o = Obj(cls, dict(t=Ex(z3.Const('expr', EXP)), **kw))
    return o


def run(D, I, f, *a, **kw):
    try:
        return I.call_python(unwrap(f), list(a), kw)
    except PyRaise as x:
        # a documented refusal
        D.prove('no unexpected exception (%s)' % x, z3.BoolVal(issubclass(x.exc_type, (ValueError, NotImplementedError, TypeError)) or
                                                                x.exc_type.__name__ in ('AlgebraError', 'BasisNotSetError')))
        return None


HELPERS = {'local': '_convert_local_operator_to_qutip', 'operation': '_convert_operator_operation_to_qutip',
           'ket': '_convert_ket_to_qutip', 'super': '_convert_superoperator_to_qutip', 'state': '_convert_state_operation_to_qutip'}


def call_conv(D, I, kind, e, F, helper=None):
    """the conversion of e on F: through the function that the class is sent to"""
    if kind == 'qutip':
        f = unwrap(getattr(CQ, HELPERS[helper]))
        return run(D, I, f, e, F, D.mapping)
    f = unwrap(CS.convert_to_sympy_matrix)
    del D.contracts[f]
    done = []

    def again(D1, I1, a, kw):
        if not done and a[0] is e:
            raise Unsupported('recursion on the same expression')
        return D.c_convert(D1, I1, a, kw)
    D.contracts[f] = D.c_convert
    D.ctx.assume(ISIN(SPOF(ex(e)), F.t))
    h = D.contracts.pop(f)
    first = [True]

    def entry(D1, I1, a, kw):
        return h(D1, I1, a, kw)
    D.contracts[f] = entry
    return run(D, I, f, e, F)


def operands(D, sort=EXP):
    n = z3.Int('noperands')
    D.ctx.assume(n >= 1)
    op = Fn('operand', Z, EXP)
    i = z3.Int('i!')
    # the operands act on the space
    D.ctx.assume(z3.ForAll([i], ISIN(SPOF(op(i)), D.F.t), patterns=[op(i)]))
    return n, op, FL(n, lambda k: Ex(op(zi(k))), 'tuple', meta='operands')


# ------------------------------------------------------------ tasks

def t_plus(kind, cls, helper):
    def t(ctx):
        """the sum of the matrices of the summands"""
        f = unwrap(CS.convert_to_sympy_matrix)

        def inv(st):
            return [('sum so far', mt(st['s']) == Q(D.F.t, D.total(st.k + 1)))]
        loops = {}
        if kind == 'sympy':
            idx = [i for i, l in enumerate(od.loops_of(f)) if isinstance(l, ast.For) and any(isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) for x in l.body)]
            shape = lambda D1, old: Mt(z3.Const(ctx.fresh('s'), MAT))
            loops = {(f, i): Loop(inv, {'s': shape}) for i in idx}
        D, I = setup(ctx, kind, loops)
        n, op, ops = operands(D)
        total = Fn('sum_of_the_first', Z, VAL)
        i = z3.Int('i!')
        ctx.assume(total(0) == ZERO)
        ctx.assume(total(1) == V(op(0)))
        ctx.assume(z3.ForAll([i], z3.Implies(i >= 0, total(i + 1) == ADD(total(i), V(op(i)))), patterns=[op(i)]))
        D.total = total
        e = expr(cls, operands=ops)
        ctx.assume(V(ex(e)) == total(n))
        if helper == 'ket':
            ctx.assume(SPOF(ex(e)) == D.F.t)
        r = call_conv(D, I, kind, e, D.F, helper)
        if r is not None:
            D.prove('the sum of the summands', mt(r) == Q(D.F.t, V(ex(e))))
    return t


def t_scal(kind, cls, helper):
    def t(ctx):
        D, I = setup(ctx, kind)
        c, x = Ex(z3.Const('coeff', EXP)), Ex(z3.Const('term', EXP))
        e = expr(cls, coeff=c, term=x, operands=(c, x))
        ctx.assume(z3.And(V(ex(e)) == SCAL(c.t, V(x.t)), ISIN(SPOF(x.t), D.F.t)))
        if helper == 'ket':
            ctx.assume(SPOF(ex(e)) == D.F.t)
        if kind == 'sympy':
            D.contracts[unwrap(CS._sympy_scalar)] = lambda D1, I1, a, kw: Opaque('complex', a[0])
        r = call_conv(D, I, kind, e, D.F, helper)
        if r is not None:
            D.prove('coefficient times term', mt(r) == Q(D.F.t, V(ex(e))))
    return t


def t_adj(kind, cls, helper, attr):
    def t(ctx):
        D, I = setup(ctx, kind)
        x = Ex(z3.Const('operand', EXP))
        e = expr(cls, operand=x, operands=(x,), ket=x)
        ctx.assume(z3.And(V(ex(e)) == ADJ(V(x.t)), ISIN(SPOF(x.t), D.F.t)))
        if helper == 'ket':
            ctx.assume(SPOF(ex(e)) == D.F.t)
        r = call_conv(D, I, kind, e, D.F, helper)
        if r is not None:
            D.prove('adjoint matrix', mt(r) == Q(D.F.t, V(ex(e))))
    return t


def t_pair(cls, helper, left, right):
    def t(ctx):
        """the product of two parts, in order"""
        D, I = setup(ctx, 'qutip')
        a, b = Ex(z3.Const(left, EXP)), Ex(z3.Const(right, EXP))
        e = expr(cls, operands=(a, b), **{left: a, right: b})
        ctx.assume(z3.And(V(ex(e)) == MUL(V(a.t), V(b.t)), ISIN(SPOF(a.t), D.F.t), ISIN(SPOF(b.t), D.F.t)))
        if helper in ('ket',):
            ctx.assume(SPOF(ex(e)) == D.F.t)
        r = call_conv(D, I, 'qutip', e, D.F, helper)
        if r is None:
            return
        if D.tensors and any(x is r for x, fl in D.tensors):
            return
        D.prove('the product of the parts, in order', mt(r) == Q(D.F.t, V(ex(e))))
    return t


def t_local_embed(kind, cls, helper):
    def t(ctx):
        """identity on the other factors"""
        D, I = setup(ctx, kind)
        e = expr(cls)
        F, s = D.F.t, SPOF(ex(e))
        ctx.assume(F != s)
        r = call_conv(D, I, kind, e, D.F, helper)
        if r is None:
            return
        part = lambda i: z3.If(FAC(F, i) == s, V(ex(e)), ONE)
        # the factors of a space are different
        i, j = z3.Int('i!'), z3.Int('j!')
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < NFAC(F)), FAC(F, i) != FAC(F, j)), patterns=[z3.MultiPattern(FAC(F, i), FAC(F, j))]))
        if not D.is_tensor(r, 'on its own factor, the identity elsewhere', part):
            raise Unsupported('result %r' % (r,))
    return t


def t_times(kind):
    def t(ctx):
        """on each factor of the space, the product of the operands on it, in order"""
        f = unwrap(CQ._convert_operator_operation_to_qutip if kind == 'qutip' else CS.convert_to_sympy_matrix)

        def inv(st):
            D, k = st.D, st.k
            L = st['by_space']
            j = z3.Int('j?')
            out = [('as many as factors so far', zi(L.n) == k)]
            e = L.get(j) if isinstance(L, FL) else None
            if isinstance(e, Mt):
                s = FAC(D.F.t, j)
                out.append(('the product on each factor so far', z3.Implies(z3.And(j >= 0, j < k, CNT(s) >= 0, DIM(s) == DIM(s)), e.t == Q(s, PROD(s, CNT(s))))))
            return out

        def inv_prod(st):
            D, k = st.D, st.k
            L = st['by_space']
            j, s = z3.Int('j?'), D.cur_space
            last = L.get(zi(L.n) - 1)
            out = [('the product so far', mt(last) == Q(s, PROD(s, k + 1))), ('as many as factors so far', zi(L.n) == D.k0 + 1)]
            sj = FAC(D.F.t, j)
            out.append(('the product on each factor before', z3.Implies(z3.And(j >= 0, j < D.k0, CNT(sj) >= 0, DIM(sj) == DIM(sj)), mt(L.get(j)) == Q(sj, PROD(sj, CNT(sj))))))
            return out

        def matlist(D1, old):
            g = Fn(ctx.fresh('by_space'), Z, MAT)
            return FL(z3.Int(ctx.fresh('n_by')), lambda i: Mt(g(zi(i))), 'list')
        loops = {}
        for i, l in enumerate(od.loops_of(f)):
            if isinstance(l, ast.For) and any(isinstance(x, ast.Name) and x.id == 'by_space' for b in l.body for x in ast.walk(b)):
                inner = any(isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Mult) for x in l.body)
                loops[(f, i)] = Loop(inv_prod if inner else inv, {'by_space': matlist, 'ls_ops': lambda D1, old: old})
        D, I = setup(ctx, kind, loops)
        n, op, ops = operands(D)
        e = expr(OA.OperatorTimes, operands=ops)
        F = D.F.t
        ctx.assume(ISIN(SPOF(ex(e)), F))
        ctx.assume(DIM(F) == DIM(F))
        fac = D.getattr
        rl = D.run_loop

        def run_loop(I1, s, env, it, spec):
            return rl(I1, s, env, it, spec)

        def assign_hook(k):
            D.k0 = k
            D.cur_space = FAC(F, k)
        for1 = D.getattr

        def getattr_(I1, o, name):
            r = for1(I1, o, name)
            if isinstance(r, FL) and r.meta and r.meta[0] == 'factors':
                def get(i):
                    return Sp(FAC(F, zi(i)))
                r = FL(r.n, get, 'tuple', meta=r.meta)
            return r
        D.getattr = getattr_
        orig = I.assign

        def assign(target, v, env):
            if isinstance(v, Sp) and v.t.decl().eq(FAC) and isinstance(target, ast.Name):
                assign_hook(v.t.arg(1))
            return orig(target, v, env)
        I.assign = assign
        single = ctx.branch(z3.Bool('a factor acts on several spaces'), 'several')

        def c_any(D1, I1, a, kw):
            return single
        D.contracts[any] = c_any
        r = call_conv(D, I, kind, e, D.F, 'operation')
        if r is None:
            return
        if single:
            D.prove('the expanded product', mt(r) == Q(F, V(ex(e))))
            return
        part = lambda i: PROD(FAC(F, i), CNT(FAC(F, i)))
        if D.is_tensor(r, 'product on each factor', part):
            return
        s = FAC(F, z3.IntVal(0))
        ctx.assume(CNT(s) >= 0)
        D.prove('one factor only', NFAC(F) == 1)
        D.prove('the product on this factor', z3.Implies(z3.Int('j?') == 0, mt(r) == Q(s, PROD(s, CNT(s)))))
    return t


def t_tensorket(ctx):
    D, I = setup(ctx, 'qutip')
    n, op, ops = operands(D)
    F = D.F.t
    i = z3.Int('i!')
    e = expr(ST.TensorKet, operands=ops)
    ctx.assume(ISIN(SPOF(ex(e)), F))
    ctx.assume(SPOF(ex(e)) == F)
    several = ctx.branch(z3.Bool('a factor of several spaces'), 'several')
    D.contracts[any] = lambda D1, I1, a, kw: several
    if not several:
        # operands in the order of the factors
        ctx.assume(n == NFAC(F))
        ctx.assume(z3.ForAll([i], SPOF(op(i)) == FAC(F, i), patterns=[op(i)]))
    r = call_conv(D, I, 'qutip', e, D.F, 'ket')
    if r is None:
        return
    if several:
        D.prove('the expanded product', mt(r) == Q(F, V(ex(e))))
    elif not D.is_tensor(r, 'the states of the factors', lambda i: V(op(i))):
        raise Unsupported('result %r' % (r,))


def t_super(cls):
    def t(ctx):
        D, I = setup(ctx, 'qutip')
        F = D.F.t
        SPRE, SPOST = Fn('spre', MAT, MAT), Fn('spost', MAT, MAT)
        q = CQ.qutip
        D.contracts[unwrap(q.spre)] = lambda D1, I1, a, kw: Mt(SPRE(mt(a[0])))
        D.contracts[unwrap(q.spost)] = lambda D1, I1, a, kw: Mt(SPOST(mt(a[0])))
        if cls in (SO.SPre, SO.SPost):
            x = Ex(z3.Const('operand', EXP))
            ctx.assume(ISIN(SPOF(x.t), F))
            e = expr(cls, operands=(x,), operand=x)
            D.nomap = False
            r = call_conv(D, I, 'qutip', e, D.F, 'super')
            if r is not None:
                D.prove('multiplication by the matrix of the operand', mt(r) == (SPRE if cls is SO.SPre else SPOST)(Q(F, V(x.t))))
            return
        if cls == 'one':
            e = expr(type(SO.IdentitySuperOperator))
            e.fields['is'] = SO.IdentitySuperOperator
            r = call_conv(D, I, 'qutip', e, D.F, 'super')
            if r is None:
                return
            for x, fl in D.tensors:
                if mt(r).eq(SPRE(x.t)):
                    D.is_tensor(x, 'the identity on each factor', lambda i: ONE)
                    return
            raise Unsupported('result %r' % (r,))
        if cls == 'zero':
            e = expr(type(SO.ZeroSuperOperator))
            e.fields['is'] = SO.ZeroSuperOperator
            got = []

            def conv(D1, I1, a, kw):
                got.append(a)
                D.prove('the zero operator on the space', z3.BoolVal(a[0] is OA.ZeroOperator and a[1] is D.F))
                return Mt(Q(F, ZERO))
            D.contracts[unwrap(CQ.convert_to_qutip)] = conv
            r = call_conv(D, I, 'qutip', e, D.F, 'super')
            if r is not None:
                D.prove('zero', z3.Or(mt(r) == SPRE(Q(F, ZERO)), mt(r) == SPOST(Q(F, ZERO))))
            return
    return t


def t_super_times(ctx):
    D, I = setup(ctx, 'qutip')
    n, op, ops = operands(D)
    total = Fn('product_of_the_first', Z, VAL)
    i = z3.Int('i!')
    ctx.assume(z3.And(total(0) == ONE, total(1) == V(op(0))))
    ctx.assume(z3.ForAll([i], z3.Implies(i >= 0, total(i + 1) == MUL(total(i), V(op(i)))), patterns=[op(i)]))
    D.total = total
    e = expr(SO.SuperOperatorTimes, operands=ops)
    ctx.assume(V(ex(e)) == total(n))
    r = call_conv(D, I, 'qutip', e, D.F, 'super')
    if r is not None:
        D.prove('the product of the factors, in order', mt(r) == Q(D.F.t, V(ex(e))))


# ------------------------------------------------- matrices of single operators
P_, Q_ = z3.Int('row'), z3.Int('column')


def local_setup(ctx, kind, cls, loops=None, **fields):
    D, I = setup(ctx, kind, loops)
    e = expr(cls, **fields)
    F = D.F
    ctx.assume(z3.And(SPOF(ex(e)) == F.t, ISIN(F.t, F.t), DIM(F.t) >= 1))
    ctx.assume(z3.And(P_ >= 0, P_ < DIM(F.t), Q_ >= 0, Q_ < DIM(F.t)))
    c = D.contracts
    if kind == 'qutip':
        q = CQ.qutip
        c[unwrap(q.create)] = lambda D1, I1, a, kw: Gen(zi(a[0]), {'d': cx(1)})
        c[unwrap(q.destroy)] = lambda D1, I1, a, kw: Gen(zi(a[0]), {'a': cx(1)})
        # D(z) = exp(z a^+ - z* a), S(z) = exp((z* a^2 - z a^+^2) / 2)
        c[unwrap(q.displace)] = lambda D1, I1, a, kw: Gen(zi(a[0]), {'d': a[1], 'a': Cx(-a[1].re, a[1].im)}, True)
        c[unwrap(q.squeeze)] = lambda D1, I1, a, kw: Gen(zi(a[0]), {'aa': Cx(a[1].re / 2, -a[1].im / 2), 'dd': Cx(-a[1].re / 2, -a[1].im / 2)}, True)
        c[unwrap(q.basis)] = lambda D1, I1, a, kw: Em(zi(a[0]), 1, lambda p, r: z3.If(p == zi(a[1]), z3.RealVal(1), R0))
        c[unwrap(q.coherent)] = lambda D1, I1, a, kw: Opaque('coherent', zi(a[0]), a[1])
        c[CQ.arange] = lambda D1, I1, a, kw: Vec(zi(a[0]), lambda i: Cx(z3.ToReal(zi(i)), R0))
        c[CQ.np_cos] = lambda D1, I1, a, kw: Vec(a[0].n, a[0].get, 'cos')
        c[CQ.np_sin] = lambda D1, I1, a, kw: Vec(a[0].n, a[0].get, 'sin')
        c[CQ.np_diag] = c[unwrap(CQ.np_diag)] = lambda D1, I1, a, kw: Em(a[0].n, a[0].n, lambda p, r: z3.If(p == r, a[0].get(p).t, R0))

        def jmat(D1, I1, a, kw):
            j, w = cx(a[0]), a[1]
            n = DIM(F.t)
            D.prove('the spin of the space', z3.And(j.re * 2 == z3.ToReal(n) - 1, j.im == 0))
            return Em(n, n, lambda p, r: JM[w](n, p, r))
        c[unwrap(q.jmat)] = jmat
        D.classes[q.Qobj] = lambda D1, I1, a, kw: a[0]
        c[complex] = lambda D1, I1, a, kw: a[0] if isinstance(a[0], Cx) else Opaque('complex', a[0])
    else:
        c[unwrap(CS._sympy_scalar)] = lambda D1, I1, a, kw: a[0].fields['val']
        c[unwrap(CS.SympyCreate)] = lambda D1, I1, a, kw: Gen(zi(a[0]), {'d': cx(1)})
        c[unwrap(CS.basis_state)] = lambda D1, I1, a, kw: Em(zi(a[1]), 1, lambda p, r: z3.If(p == zi(a[0]), z3.RealVal(1), R0))
        c[unwrap(sympy.zeros)] = zeros
        D.classes[sympy.exp] = lambda D1, I1, a, kw: En(EXPC(cx(a[0]).re, cx(a[0]).im))
        for nm, fn in (('z', HSJ('Jzjmcoeff')), ('+', HSJ('Jpjmcoeff')), ('-', HSJ('Jmjmcoeff'))):
            def h(D1, I1, a, kw, nm=nm):
                D.prove('spin coefficients of the space, counted from zero', z3.And(sp(a[0]) == F.t, z3.BoolVal(kw.get('shift') is True)))
                return En(COEFF[nm](zi(a[1])))
            c[unwrap(fn)] = h
    return D, I, e


COEFF = {x: Fn('spin_coefficient' + x, Z, z3.RealSort()) for x in 'z+-'}


def HSJ(nm):
    return getattr(CS, nm)


def zeros(D, I, a, kw):
    return Em(zi(a[0]), zi(a[1] if len(a) > 1 else a[0]), lambda p, q: R0)


def number(ctx, nm):
    return Obj(SA.ScalarValue, dict(val=Cx(z3.Real(nm + '_re'), z3.Real(nm + '_im'))))


def same_gen(D, r, n, terms, exp):
    if not isinstance(r, Gen):
        raise Unsupported('result %r' % (r,))
    D.prove('dimension of the space', zi(r.n) == n)
    D.prove('exponential', z3.BoolVal(r.exp == exp))
    for w in sorted(set(terms) | set(r.terms)):
        a, b = [t.get(w, cx(0)) for t in (terms, r.terms)]
        D.prove('coefficient of %s' % w, z3.And(a.re == b.re, a.im == b.im))


def same_entries(D, r, rows, cols, get):
    if not isinstance(r, Em):
        raise Unsupported('result %r' % (r,))
    D.prove('shape of the matrix', z3.And(r.rows == rows, r.cols == cols))
    D.prove('every entry of the matrix', r.get(P_, Q_) == get(P_, Q_))


def t_gen(kind, cls):
    """Create, Destroy, Displace, Squeeze"""
    def t(ctx):
        z = number(ctx, 'z')
        D, I, e = local_setup(ctx, kind, cls, displacement=z, squeezing_factor=z)
        r = call_conv(D, I, kind, e, D.F, 'local')
        if r is None:
            return
        v = z.fields['val']
        half = lambda s, t: Cx(s * v.re / 2, t * v.im / 2)
        terms = {FK.Create: {'d': cx(1)}, FK.Destroy: {'a': cx(1)}, FK.Displace: {'d': v, 'a': Cx(-v.re, v.im)},
                 FK.Squeeze: {'dd': half(1, 1), 'aa': half(-1, 1)}}[cls]
        same_gen(D, r, DIM(D.F.t), terms, cls in (FK.Displace, FK.Squeeze))
    return t


def t_phase(kind):
    def t(ctx):
        z = number(ctx, 'phase')
        v = z.fields['val']
        val = lambda i: EXPC(-v.im * z3.ToReal(i), v.re * z3.ToReal(i))
        spec = lambda p, q: z3.If(p == q, val(p), R0)
        D, I, e = local_setup(ctx, kind, FK.Phase, loops=entry_loops(lambda k: lambda p, q: z3.If(z3.And(p == q, p < k), val(p), R0), 'exp'), phase=z)
        r = call_conv(D, I, kind, e, D.F, 'local')
        if r is not None:
            same_entries(D, r, DIM(D.F.t), DIM(D.F.t), spec)
    return t


def entry_loops(part, uses):
    """loops that fill a matrix row by row; part(k): the entries after k steps"""
    f = unwrap(CS.convert_to_sympy_matrix)

    def inv(st):
        R = st['result']
        n = DIM(st.D.F.t)
        return [('entries so far', R.get(P_, Q_) == part(st.k)(P_, Q_)), ('shape', z3.And(R.rows == n, R.cols == n))]

    def shape(D, old):
        g = Fn(D.ctx.fresh('entries'), Z, Z, z3.RealSort())
        return Em(old.rows, old.cols, lambda p, q: g(zi(p), zi(q)))
    return {(f, i): Loop(inv, {'result': shape}) for i, l in enumerate(od.loops_of(f)) if isinstance(l, ast.For) and any(
        isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and getattr(x.value, 'id', '') == 'result' for b in l.body for x in ast.walk(b))}


def t_spin(kind, cls, w):
    def t(ctx):
        step = {'z': 0, '+': 1, '-': -1}[w]
        D, I, e = local_setup(ctx, kind, cls, entry_loops(lambda k: lambda p, q: z3.If(z3.And(p == q + step, q < k), COEFF[w](q), R0), w))
        n = DIM(D.F.t)
        r = call_conv(D, I, kind, e, D.F, 'local')
        if r is None:
            return
        if kind == 'qutip':
            # QuTiP counts the states from the highest one
            same_entries(D, r, n, n, lambda p, q: JM[w](n, n - 1 - p, n - 1 - q))
        else:
            same_entries(D, r, n, n, lambda p, q: z3.If(p == q + step, COEFF[w](q), R0))
    return t


def t_sigma(kind):
    def t(ctx):
        n = z3.Int('nlabels')
        lab = Fn('label', Z, LABEL)
        labels = FL(n, lambda i: Lbl(lab(zi(i))), 'tuple')
        ij, ik = z3.Int('index_j'), z3.Int('index_k')
        fs = {}
        facts = [n == DIM(z3.Const('F', SPC))]
        x, y = z3.Ints('x! y!')
        facts.append(z3.ForAll([x, y], z3.Implies(lab(x) == lab(y), x == y), patterns=[z3.MultiPattern(lab(x), lab(y))]))
        for nm, ix in (('j', ij), ('k', ik)):
            facts.append(z3.And(ix >= 0, ix < n))
            how = ctx.choose(2, 'label or index ' + nm)
            fs[nm] = Lbl(lab(ix)) if how else SInt(ix)
        D, I, e = local_setup(ctx, kind, OA.LocalSigma, index_j=SInt(ij), index_k=SInt(ik), **fs)
        for f in facts:
            ctx.assume(f)
        g = D.getattr
        D.getattr = lambda I1, o, name: labels if isinstance(o, Sp) and name == 'basis_labels' else g(I1, o, name)
        r = call_conv(D, I, kind, e, D.F, 'local')
        if r is not None:
            same_entries(D, r, DIM(D.F.t), DIM(D.F.t), lambda p, q: z3.If(z3.And(p == ij, q == ik), z3.RealVal(1), R0))
    return t


def t_basisket(ctx):
    ix = z3.Int('index')
    D, I, e = local_setup(ctx, 'qutip', ST.BasisKet, index=SInt(ix))
    r = call_conv(D, I, 'qutip', e, D.F, 'ket')
    if r is not None:
        ctx.assume(Q_ == 0)
        same_entries(D, r, DIM(D.F.t), 1, lambda p, q: z3.If(p == ix, z3.RealVal(1), R0))


def t_coherent(ctx):
    z = number(ctx, 'ampl')
    D, I, e = local_setup(ctx, 'qutip', ST.CoherentStateKet, ampl=z)
    D.contracts[unwrap(SA.ScalarValue.create)] = lambda D1, I1, a, kw: a[-1]
    r = call_conv(D, I, 'qutip', e, D.F, 'ket')
    if r is None:
        return
    if not (isinstance(r, Opaque) and r.what == 'coherent' and isinstance(r.args[1], Cx)):
        raise Unsupported('result %r' % (r,))
    v, w = r.args[1], z.fields['val']
    D.prove('coherent state of the amplitude on the levels of the space', z3.And(r.args[0] == DIM(D.F.t), v.re == w.re, v.im == w.im))


def t_basis_state(ctx):
    D, I = setup(ctx, 'sympy')
    D.contracts[unwrap(sympy.zeros)] = zeros
    i, n = z3.Ints('i n')
    ctx.assume(z3.And(i >= 0, i < n, P_ >= 0, P_ < n, Q_ == 0))
    r = run(D, I, CS.basis_state, SInt(i), SInt(n))
    if r is not None:
        same_entries(D, r, n, 1, lambda p, q: z3.If(p == i, z3.RealVal(1), R0))


def t_sympy_create(ctx):
    """the creation operator: sqrt(i) in row i, column i - 1"""
    f = unwrap(CS.SympyCreate)
    n = z3.Int('n')
    part = lambda k: lambda p, q: z3.If(z3.And(p == q + 1, p <= k), SQ(p), R0)

    def inv(st):
        a = st['a']
        return [('entries so far', a.get(P_, Q_) == part(st.k)(P_, Q_)), ('shape', z3.And(a.rows == n, a.cols == n))]

    def shape(D, old):
        g = Fn(D.ctx.fresh('entries'), Z, Z, z3.RealSort())
        return Em(old.rows, old.cols, lambda p, q: g(zi(p), zi(q)))
    D, I = setup(ctx, 'sympy', {(f, 0): Loop(inv, {'a': shape})})
    D.contracts[unwrap(sympy.zeros)] = zeros
    D.contracts[sympy.sqrt] = D.contracts[unwrap(sympy.sqrt)] = lambda D1, I1, a, kw: En(SQ(zi(a[0])))
    D.contracts[unwrap(CS.basis_state)] = lambda D1, I1, a, kw: Em(zi(a[1]), 1, lambda p, r: z3.If(p == zi(a[0]), z3.RealVal(1), R0))
    ctx.assume(z3.And(n >= 1, P_ >= 0, P_ < n, Q_ >= 0, Q_ < n))
    r = run(D, I, f, SInt(n))
    if r is not None:
        same_entries(D, r, n, n, part(n - 1))


def t_sympy_scalar(ctx):
    D, I = setup(ctx, 'sympy')
    z = Cx(z3.Real('re'), z3.Real('im'))
    how = ctx.choose(3, 'value, scalar without value, anything else')
    e = Obj(SA.ScalarValue, dict(val=z)) if how == 0 else Obj(SA.ScalarTimes, dict(t=Ex(z3.Const('expr', EXP)))) if how == 1 else z
    D.contracts[unwrap(sympy.sympify)] = lambda D1, I1, a, kw: a[0]
    inst = D.isinstance
    D.isinstance = lambda I1, o, c: False if isinstance(o, Cx) else inst(I1, o, c)
    try:
        r = I.call_python(unwrap(CS._sympy_scalar), [e], {})
    except PyRaise as x:
        D.prove('only scalars without a value are refused', z3.BoolVal(how == 1 and issubclass(x.exc_type, ValueError)))
        return
    D.prove('the value of the scalar', z3.BoolVal(r is z))


# ------------------------------------------------- the entry points
def t_dispatch(cls, helper):
    def t(ctx):
        """every kind of expression goes to the function that converts it; mapped
        expressions are what the mapping says"""
        D, I = setup(ctx, 'qutip')
        del D.contracts[unwrap(CQ.convert_to_qutip)]
        e = expr(cls)
        if cls in SPECIAL:
            e.fields['is'] = SPECIAL[cls]
        given = ctx.choose(2, 'full space') == 0
        F = D.F.t
        if not given:
            ctx.assume(SPOF(ex(e)) == F)
        called = []

        def conv(h):
            def c(D1, I1, a, kw):
                called.append(h)
                d = dict(zip(('expr', 'full_space', 'mapping'), a), **kw)
                D.prove('the expression, the space and the mapping are passed on',
                        z3.And(z3.BoolVal(d['expr'] is e and d['mapping'] is mapping), sp(d['full_space']) == F))
                return Mt(Q(F, V(ex(e))))
            return c
        for h, nm in HELPERS.items():
            D.contracts[unwrap(getattr(CQ, nm))] = conv(h)
        want = Mt(z3.Const('mapped', MAT))
        how = ctx.choose(3, 'no mapping, matrix, function')
        func = types_fn(lambda x: want if x is e else Mt(z3.Const('other', MAT)))
        mapping = None if how == 0 else Opaque('mapping', lambda i: (want if how == 1 else func) if i is e else None)
        D.contracts[callable] = lambda D1, I1, a, kw: not isinstance(a[0], Mt)
        inst = D.isinstance
        D.isinstance = lambda I1, o, c: False if o is func else inst(I1, o, c)
        try:
            r = I.call_python(unwrap(CQ.convert_to_qutip), [e] + ([D.F] if given else []), dict(mapping=mapping))
        except PyRaise as x:
            D.prove('refused only with the documented exceptions', z3.BoolVal(issubclass(x.exc_type, (ValueError, NotImplementedError)) or
                                                                                  x.exc_type.__name__ == 'AlgebraError'))
            if not isinstance(helper, str):
                return
            D.prove('refused only if the expression is not in the space', z3.Or(z3.Not(ISIN(SPOF(ex(e)), F)), z3.Bool('full_space_is_trivial')))
            return
        D.prove('the expression acts on the space', z3.Or(ISIN(SPOF(ex(e)), F), z3.BoolVal(helper == 'zeroket')))
        if isinstance(r, Mt) and r.t.eq(want.t):
            D.prove('mapped only if in the mapping', z3.And(z3.BoolVal(how > 0), z3.Bool('in_mapping')))
            return
        D.prove('the mapping has precedence', z3.Or(z3.BoolVal(how == 0), z3.Not(z3.Bool('in_mapping')), z3.BoolVal(helper == 'zeroket')))
        if helper in ('one', 'zero', 'zeroket'):
            j = z3.Int('j?')
            part = {'one': lambda i: EYE(DIM(FAC(F, i))), 'zero': lambda i: NULL(DIM(FAC(F, i)), DIM(FAC(F, i))),
                    'zeroket': lambda i: NULL(DIM(FAC(F, i)), 1)}[helper]
            for x, fl in D.tensors:
                if x is r:
                    D.prove('a factor for every factor of the space', zi(fl.n) == NFAC(F))
                    ctx.assume(z3.And(j >= 0, j < NFAC(F)))
                    D.prove('each factor', mt(fl.get(j)) == part(j))
                    return
            raise Unsupported('result %r' % (r,))
        D.prove('converted by the function for its class', z3.BoolVal(called == [helper]))
        D.prove('the converted expression', mt(r) == Q(F, V(ex(e))))
    return t


def t_ketbra(ctx):
    """the factors of the state first, then the others, rearranged in the order of
    the full space"""
    D, I = setup(ctx, 'qutip')
    F = D.F.t
    k, b = Ex(z3.Const('ket', EXP)), Ex(z3.Const('bra', EXP))
    e = expr(ST.KetBra, ket=k, bra=b)
    S = SPOF(ex(e))
    ctx.assume(z3.And(ISIN(S, F), z3.Or(SPOF(k.t) == S, ISIN(SPOF(k.t), S)), z3.Or(SPOF(b.t) == S, ISIN(SPOF(b.t), S)), NFAC(S) >= 1))
    n, oth = z3.Int('nothers'), Fn('other_factor', Z, SPC)
    ctx.assume(n >= 0)
    others = FL(n, lambda i: Sp(oth(zi(i))), 'list', meta=('others',))

    def other_factors(I1, e1, g, env, it):
        if not (it.meta[0] == 'factors' and z3.is_true(z3.simplify(it.meta[1] == F))):
            raise Unsupported('filtered factors')
        s = Sp(z3.Const('some_factor', SPC))
        sub = od.Env({}, env, env.globs)
        I.assign(g.target, s, sub)
        v = I.eval(e1.elt, sub)
        if v is not s:
            raise Unsupported('filtered factors')
        own = z3.Bool('some_factor_is_own')
        con = D.contains
        fc = D.fl_contains
        D.fl_contains = lambda I2, c, x: SBool(own) if x is s and c.meta and c.meta[0] == 'factors' and z3.is_true(z3.simplify(c.meta[1] == S)) else fc(I2, c, x)
        cond = T
        for c in g.ifs:
            r = I.eval(c, sub)
            cond = z3.And(cond, r.t if isinstance(r, SBool) else z3.BoolVal(r))
        D.fl_contains = fc
        D.prove('the factors of the full space that are not factors of the state', cond == z3.Not(own))
        return others
    D.other_factors = other_factors
    r = call_conv(D, I, 'qutip', e, D.F, 'operation')
    if r is None:
        return
    if not isinstance(r, Perm):
        raise Unsupported('result %r' % (r,))
    fl = [x for t, x in D.tensors if t is r.of][0]
    j = z3.Int('j?')
    D.prove('the projector and one factor for every other factor', zi(fl.n) == 1 + n)
    D.prove('the projector', mt(fl.get(z3.IntVal(0))) == Q(S, MUL(V(k.t), V(b.t))))
    m = ctx.mark()
    ctx.assume(z3.And(j >= 1, j <= n, DIM(oth(j - 1)) >= 0))
    D.prove('identity on the other factors', mt(fl.get(j)) == EYE(DIM(oth(j - 1))))
    ctx.undo(m)
    o = r.order
    D.prove('a position for every factor', zi(o.n) == NFAC(F))
    ctx.assume(z3.And(j >= 0, j < NFAC(F)))
    at = zi(o.get(j))
    ns = NFAC(S)
    D.prove('every factor comes from its position', z3.And(at >= 0, at < ns + n, FAC(F, j) == z3.If(at < ns, FAC(S, at), oth(at - ns))))


SPECIAL = {type(OA.IdentityOperator): OA.IdentityOperator, type(OA.ZeroOperator): OA.ZeroOperator, type(ST.ZeroKet): ST.ZeroKet}


def qutip_tasks():
    W = lambda h: where(getattr(CQ, HELPERS[h]))
    for cls, h in ((OA.OperatorPlus, 'operation'), (ST.KetPlus, 'ket'), (SO.SuperOperatorPlus, 'super')):
        yield cls.__name__, t_plus('qutip', cls, h), W(h)
    for cls, h in ((OA.ScalarTimesOperator, 'operation'), (ST.ScalarTimesKet, 'ket'), (SO.ScalarTimesSuperOperator, 'super')):
        yield cls.__name__, t_scal('qutip', cls, h), W(h)
    yield 'Adjoint', t_adj('qutip', OA.Adjoint, 'operation', 'operand'), W('operation')
    yield 'Bra', t_adj('qutip', ST.Bra, 'ket', 'ket'), W('ket')
    yield 'OperatorTimes', t_times('qutip'), W('operation')
    yield 'LocalOperator', t_local_embed('qutip', FK.Destroy, 'local'), W('local')
    yield 'LocalKet', t_local_embed('qutip', ST.BasisKet, 'ket'), W('ket')
    yield 'TensorKet', t_tensorket, W('ket')
    yield 'OperatorTimesKet', t_pair(ST.OperatorTimesKet, 'ket', 'operator', 'ket'), W('ket')
    yield 'SuperOperatorTimes', t_super_times, W('super')
    for c in (SO.SPre, SO.SPost):
        yield c.__name__, t_super(c), W('super')
    yield 'KetBra', t_ketbra, W('operation')
    for c in (FK.Create, FK.Destroy, FK.Displace, FK.Squeeze):
        yield c.__name__, t_gen('qutip', c), W('local')
    yield 'Phase', t_phase('qutip'), W('local')
    for c, w in ((HS_J.Jz, 'z'), (HS_J.Jplus, '+'), (HS_J.Jminus, '-')):
        yield c.__name__, t_spin('qutip', c, w), W('local')
    yield 'LocalSigma', t_sigma('qutip'), W('local')
    yield 'BasisKet', t_basisket, W('ket')
    yield 'CoherentStateKet', t_coherent, W('ket')
    for c, h in ((type(OA.IdentityOperator), 'one'), (type(OA.ZeroOperator), 'zero'), (type(ST.ZeroKet), 'zeroket'), (FK.Destroy, 'local'),
                 (OA.LocalSigma, 'local'), (HS_J.Jz, 'local'), (OA.OperatorPlus, 'operation'), (OA.OperatorTimes, 'operation'),
                 (OA.ScalarTimesOperator, 'operation'), (OA.Adjoint, 'operation'), (ST.KetBra, 'operation'), (ST.BasisKet, 'ket'),
                 (ST.CoherentStateKet, 'ket'), (ST.KetPlus, 'ket'), (ST.TensorKet, 'ket'), (ST.ScalarTimesKet, 'ket'), (ST.OperatorTimesKet, 'ket'),
                 (ST.Bra, 'ket'), (SO.SuperOperatorPlus, 'super'), (SO.SPre, 'super'), (SO.SPost, 'super'), (SO.SuperOperatorTimes, 'super')):
        yield 'convert_to_qutip[%s]' % c.__name__, t_dispatch(c, h), where(CQ.convert_to_qutip)
    yield 'IdentitySuperOperator', t_super('one'), W('super')
    yield 'ZeroSuperOperator', t_super('zero'), W('super')


def sympy_tasks():
    w = where(CS.convert_to_sympy_matrix)
    yield 'sympy.OperatorPlus', t_plus('sympy', OA.OperatorPlus, None), w
    yield 'sympy.ScalarTimesOperator', t_scal('sympy', OA.ScalarTimesOperator, None), w
    yield 'sympy.Adjoint', t_adj('sympy', OA.Adjoint, None, 'operand'), w
    yield 'sympy.OperatorTimes', t_times('sympy'), w
    for c in (FK.Create, FK.Destroy, FK.Displace, FK.Squeeze):
        yield 'sympy.' + c.__name__, t_gen('sympy', c), w
    yield 'sympy.Phase', t_phase('sympy'), w
    for c, x in ((HS_J.Jz, 'z'), (HS_J.Jplus, '+'), (HS_J.Jminus, '-')):
        yield 'sympy.' + c.__name__, t_spin('sympy', c, x), w
    yield 'sympy.LocalSigma', t_sigma('sympy'), w
    yield 'basis_state', t_basis_state, where(CS.basis_state)
    yield 'SympyCreate', t_sympy_create, where(CS.SympyCreate)
    yield '_sympy_scalar', t_sympy_scalar, where(CS._sympy_scalar)
    yield 'sympy.LocalOperator', t_local_embed('sympy', FK.Destroy, None), w


def tasks():
    yield from qutip_tasks()
    yield from sympy_tasks()


if __name__ == '__main__':
    from specs import slh
    slh.main(tasks())
