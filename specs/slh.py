"""Contracts of the SLH algebra, of the master equation and Heisenberg
equation of motion, and of Matrix (C04, C08, C18, C24).

Two views of a matrix of operators:
 Mx  a block matrix; every block is an element of the free *-algebra (a
     matrix of operators is one operator on C^n (x) H), sizes are symbolic.
     Used for SLH, where Matrix is known by its contract.
 ND  a numpy array of symbolic shape given by its entries m[i,j]; used to
     show that the methods of Matrix satisfy that contract, entry by entry."""
import sys
from pyvc import live  # noqa: F401
import functools
import re
import ast
import types
import z3
import numpy as np
import sympy
from fractions import Fraction
from pyvc import nc, od
from pyvc.nc import P
from pyvc.od import zi, FL, SInt, SBool, Loop, to_fl, Obj, vsub
from pyvc.engine import SymStr, PyRaise, BoundMethod, Sym, Unsupported, Obligation, PathEnd
from pyvc.source import where, unwrap
from pyvc.live import CA, EX
import importlib
MA = importlib.import_module('qnet.algebra.core.matrix_algebra')
SO = importlib.import_module('qnet.algebra.core.super_operator_algebra')
HS = importlib.import_module('qnet.algebra.core.hilbert_space_algebra')
OA = importlib.import_module('qnet.algebra.core.operator_algebra')
SA = importlib.import_module('qnet.algebra.core.scalar_algebra')
CC = importlib.import_module('qnet.algebra.library.circuit_components')

IV = z3.IntVal


# ------------------------------------------------------------------ elements

IX = {}          # letter or atom name -> (base, index terms, kind)
_i = z3.IntSort()
FLAT = z3.Function('flat', _i, _i, _i, _i)       # width, row, column
ROW = z3.Function('rowof', _i, _i, _i)            # width, position
COL = z3.Function('colof', _i, _i, _i)


VECTORS = [False]     # also rewrite flat(w, 0, j) = j and flat(1, i, 0) = i


def norm(t):
    """rowof(w, flat(w, i, j)) = i, colof(w, flat(w, i, j)) = j"""
    t = z3.simplify(zi(t))

    def walk(e):
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        a = [walk(x) for x in e.children()]
        n = e.decl().name()
        if n in ('rowof', 'colof') and z3.is_app(a[1]) and a[1].decl().name() == 'flat' and a[1].arg(0).eq(a[0]):
            return a[1].arg(1 if n == 'rowof' else 2)
        if VECTORS[0] and n == 'flat':
            w, i, j = a
            if i.eq(IV(0)):
                return j
            if w.eq(IV(1)) and j.eq(IV(0)):
                return i
        return e.decl()(*a)
    return z3.simplify(walk(t))


def ix(base, *idx, kind='op'):
    idx = [norm(i) for i in idx]
    nm = '%s[%s]' % (base, ','.join(' '.join(str(i).split()) for i in idx))
    IX[nm] = (base, idx, kind)
    if kind == 'op':
        return nc.letter(nm)
    if kind == 'herm':
        return nc.letter(nm, herm=True)
    return nc.var(nm, real=kind == 'real')


def keys_of(p):
    s = set()
    for (m, w) in p.t:
        for k, e in m:
            s |= atom_keys(k)
        s |= set(w)
    return s


def atom_keys(k):
    s = {k}
    a = nc.ATOMS[k]
    for x in a.args:
        if isinstance(x, P):
            s |= keys_of(x)
    return s


def psub(p, pairs):
    """substitute positions in the names of indexed letters"""
    sub = {}
    for k in list(keys_of(p)):
        for nm in {k, nc.LETTERS[k].adj_key if k in nc.LETTERS else None, nc.ATOMS[k].conj_key if k in nc.ATOMS else None}:
            if nm in IX:
                b, idx, kind = IX[nm]
                new = [norm(z3.substitute(i, *pairs)) for i in idx]
                if [x.sexpr() for x in new] != [x.sexpr() for x in idx]:
                    sub[nm] = ix(b, *new, kind=kind)
            elif nm in SUMS:
                k0, n, core = SUMS[nm]
                c2, n2 = psub(core, pairs), z3.simplify(z3.substitute(n, *pairs))
                if c2 != core or not n2.eq(n):
                    sub[nm] = big_sum(k0, n2, c2)
    return p.subst(sub)


SUMS = {}


def sum_letter(k, n, core):
    """the letter of sum_k core (core: one word of indexed letters and atoms)"""
    lvl = z3.Int('s%d!' % depth(core))
    c = psub(core, [(k, lvl)])
    nm = 'S{%s<%s}(%s)' % (lvl, z3.simplify(n), c.key())
    if nm not in nc.LETTERS:
        ca = c.adj()
        na = 'S{%s<%s}(%s)' % (lvl, z3.simplify(n), ca.key())
        if na == nm:
            nc.LETTERS[nm] = nc.Letter(nm, 'op', None, nm, True, None)
        else:
            nc.LETTERS[nm] = nc.Letter(nm, 'op', None, na, False, None)
            nc.LETTERS[na] = nc.Letter(na, 'op', None, nm, False, None)
        SUMS[nm], SUMS[na] = (lvl, n, c), (lvl, n, ca)
    return P({((), (nm,)): nc.CQ(1)})


def depth(p):
    d = 0
    for k in keys_of(p):
        m = re.findall(r's(\d+)!', k)
        d = max([d] + [int(x) + 1 for x in m])
    return d


def depends(key, k):
    if key in nc.ATOMS and key not in IX and nc.ATOMS[key].conj_key in IX:
        key = nc.ATOMS[key].conj_key
    if key in nc.LETTERS and key not in IX and nc.LETTERS[key].adj_key in IX:
        key = nc.LETTERS[key].adj_key
    if key in IX:
        return any(_occ(k, i) for i in IX[key][1])
    if key in SUMS:
        return any(depends(x, k) for x in keys_of(SUMS[key][2])) or _occ(k, SUMS[key][1])
    if key in nc.ATOMS:
        return any(isinstance(x, P) and any(depends(y, k) for y in keys_of(x)) for x in nc.ATOMS[key].args)
    return False


def _occ(k, e):
    return e.eq(k) or any(_occ(k, c) for c in e.children())


def big_sum(k, n, p):
    """sum_{k<n} p: linear; factors that do not depend on k are pulled out"""
    out = P()
    for (m, w), c in p.t.items():
        free = tuple((a, e) for a, e in m if not depends(a, k))
        bound = tuple((a, e) for a, e in m if depends(a, k))
        i, j = 0, len(w)
        while i < j and not depends(w[i], k):
            i += 1
        while j > i and not depends(w[j - 1], k):
            j -= 1
        mk = lambda m, w, c=nc.CQ(1): P({(m, w): c})
        if not bound and i == j:
            out = out + mk(free, w, c) * nc.var('#' + str(z3.simplify(n)), integer=True) if not z3.is_int_value(z3.simplify(n)) else \
                out + mk(free, w, c) * z3.simplify(n).as_long()
            continue
        out = out + mk(free, w[:i], c) * sum_letter(k, n, mk(bound, w[i:j])) * mk((), w[j:])
    return out


class Q(Sym):
    """an operator or scalar; alts: values under conditions"""

    def __init__(self, p, op=True, alts=None):
        self.p, self.op, self.alts = p, op, alts

    def __repr__(self):
        return 'Q(%s)' % (self.p,)

    def vsub(self, pairs):
        if self.alts:
            return Q(None, self.op, [(z3.substitute(c, *pairs), psub(p, pairs)) for c, p in self.alts])
        return Q(psub(self.p, pairs), self.op)

    def vite(self, c, b):
        x = self.alts or [(z3.BoolVal(True), self.p)]
        y = b.alts or [(z3.BoolVal(True), b.p)]
        return Q(None, self.op and b.op, [(z3.And(c, d), p) for d, p in x] + [(z3.And(z3.Not(c), d), p) for d, p in y])


class Sop(Sym):
    """a super-operator, given by its action"""

    def __init__(self, f):
        self.f = f

    def vsub(self, pairs):
        return Sop(lambda x: psub(self.f(x), pairs))


class Mx(Sym):
    def __init__(self, rows, cols, b, op=True):
        self.rows, self.cols, self.b, self.op = [z3.simplify(zi(r)) for r in rows], [z3.simplify(zi(c)) for c in cols], b, op

    def map(self, f):
        return Mx(self.rows, self.cols, [[f(x) for x in r] for r in self.b], self.op)

    def __repr__(self):
        return 'Mx(%s)' % self.b


def mT(m):
    return Mx(m.cols, m.rows, [[m.b[i][j] for i in range(len(m.rows))] for j in range(len(m.cols))], m.op)


def madj(m):
    return mT(m).map(lambda x: x.adj())


def tot(sizes):
    return z3.simplify(sum(sizes, IV(0)))


def mmul(D, a, b):
    if len(a.cols) != len(b.rows) or not D.entails(z3.And([x == y for x, y in zip(a.cols, b.rows)])):
        raise Unsupported('product of differently partitioned matrices')
    return Mx(a.rows, b.cols, [[sum((a.b[i][k] * b.b[k][j] for k in range(len(a.cols))), P()) for j in range(len(b.cols))]
                               for i in range(len(a.rows))], a.op or b.op)


def madd(D, a, b):
    if len(a.rows) != len(b.rows) or len(a.cols) != len(b.cols) or not D.entails(z3.And([x == y for x, y in zip(a.rows + a.cols, b.rows + b.cols)])):
        raise Unsupported('sum of differently partitioned matrices')
    return Mx(a.rows, a.cols, [[x + y for x, y in zip(r, s)] for r, s in zip(a.b, b.b)], a.op or b.op)


class ND(Sym):
    """numpy array of symbolic shape"""

    def __init__(self, r, c, get):
        self.r, self.c, self.get = z3.simplify(zi(r)), None if c is None else z3.simplify(zi(c)), get

    def __repr__(self):
        return 'ND(%s,%s)' % (self.r, self.c)


class Seg(Sym):
    """items appended by a loop over a list: for every k < n"""

    def __init__(self, k, n, items):
        self.k, self.n, self.items = k, n, items


def num(v):
    """a native number"""
    if isinstance(v, bool):
        raise Unsupported('truth value as a number')
    if isinstance(v, (int, Fraction)):
        return P.const(v)
    if isinstance(v, float) and v == int(v):
        return P.const(int(v))
    if isinstance(v, complex):
        return P.const(Fraction(v.real), Fraction(v.imag))
    if isinstance(v, np.integer):
        return P.const(int(v))
    if isinstance(v, sympy.Basic) and v.is_number:
        re_, im_ = v.as_real_imag()
        if re_.is_Rational and im_.is_Rational:
            return P.const(Fraction(int(re_.p), int(re_.q)), Fraction(int(im_.p), int(im_.q)))
    if isinstance(v, SA.ScalarValue):
        return num(v.val)
    if v is SA.One:
        return nc.ONE
    if v is SA.Zero:
        return P()
    return None


class SDomain(od.ODomain):
    def __init__(self, ctx):
        od.ODomain.__init__(self, ctx)
        self.classes[CA.SLH] = SDomain.make_slh
        self.classes[SO.SPre] = lambda D, I, a, kw: Sop(lambda x, p=D.q(a[0]).p: p * x)
        self.classes[SO.SPost] = lambda D, I, a, kw: Sop(lambda x, p=D.q(a[0]).p: x * p)
        for f, h in ((OA.adjoint, lambda D, I, a, kw: D.adj(a[0])), (SA.is_scalar, lambda D, I, a, kw: not D.q(a[0]).op),
                     (MA.zerosm, c_zeros), (MA.identity_matrix, c_eye), (MA.block_matrix, c_block), (MA.vstackm, c_vstack),
                     (MA.hstackm, c_hstack), (sympy.exp, c_exp), (sympy.cos, c_cos), (sympy.sin, c_sin)):
            self.contracts[unwrap(f)] = h
        self.classes[OA.OperatorSymbol] = c_symbol
        self.classes[sympy.exp], self.classes[sympy.cos], self.classes[sympy.sin] = c_exp, c_cos, c_sin
        self.classes[MA.Matrix] = c_matrix
        for f, h in NUMPY.items():
            self.contracts[f] = self.contracts[unwrap(f)] = h

    # -------------------------------------------------------------- values
    def q(self, v):
        if isinstance(v, Q):
            if v.alts:
                for c, p in v.alts[:-1]:
                    if self.ctx.branch(c, 'entry'):
                        return Q(p, v.op)
                return Q(v.alts[-1][1], v.op)
            return v
        if isinstance(v, SInt):
            t = z3.simplify(v.t)
            if z3.is_int_value(t):
                return Q(P.const(t.as_long()), False)
        if v is OA.IdentityOperator:
            return Q(nc.ONE)
        if v is OA.ZeroOperator:
            return Q(P())
        p = num(v)
        if p is not None:
            return Q(p, False)
        raise Unsupported('operator or number expected: %r' % (v,))

    def is_q(self, v):
        try:
            self.q(v)
            return True
        except Unsupported:
            return False

    def same_p(self, name, a, b):
        a, b = nc.normalize(a), nc.normalize(b)
        ok = a == b
        self.ctx.obligations.append(Obligation('%s: %s' % (self.ctx.task_name, name), ok, 'pyvc-nf', '' if ok else 'normal form of the difference: %s' % str((a - b).key())[:500],
                                               0.0, self.ctx.path_str(), 'proved' if ok else 'refuted'))

    def same_mx(self, name, a, b):
        self.prove(name + ': shape', z3.And(tot(a.rows) == tot(b.rows), tot(a.cols) == tot(b.cols)))
        if len(a.rows) != len(b.rows) or len(a.cols) != len(b.cols):
            raise Unsupported('comparison of differently partitioned matrices')
        self.prove(name + ': blocks', z3.And([x == y for x, y in zip(a.rows + a.cols, b.rows + b.cols)]))
        for i in range(len(a.rows)):
            for j in range(len(a.cols)):
                self.same_p('%s [%d,%d]' % (name, i, j), a.b[i][j], b.b[i][j])

    def op(self, name, herm=False):
        return Q(nc.letter(name, herm=herm))

    def scalar(self, name, real=False):
        return Q(nc.var(name, real=real), False)

    def mat(self, name, rows, cols, herm=False):
        b = [[nc.letter('%s%s%s' % (name, i if len(rows) > 1 else '', j if len(cols) > 1 else '')) for j in range(len(cols))] for i in range(len(rows))]
        m = Mx(rows, cols, b)
        m.name = name
        return m

    # -------------------------------------------------------------- SLH
    def make_slh(self, I, args, kw):
        S, L, H = args
        S, L = self.as_mx(S), self.as_mx(L)
        if not self.entails(tot(S.rows) == tot(L.rows)):
            if not self.ctx.branch(tot(S.rows) == tot(L.rows), 'S and L aligned'):
                raise PyRaise(ValueError, 'S and L misaligned')
        if not self.entails(tot(L.cols) == 1):
            raise PyRaise(ValueError, 'L must be a column')
        h = self.q(H)
        return Obj(CA.SLH, {'S': S, 'L': L, 'H': Q(h.p)}, 'slh')

    def as_mx(self, m):
        if isinstance(m, Mx):
            return m
        if isinstance(m, (list, tuple)):
            rows = [list(r) if isinstance(r, (list, tuple)) else [r] for r in m]
            if not rows or not rows[0]:
                return Mx([IV(0)], [IV(1)], [[P()]])
            return Mx([IV(1)] * len(rows), [IV(1)] * len(rows[0]), [[self.q(x).p for x in r] for r in rows])
        if isinstance(m, FL):
            x = self.q(m.get(z3.Int(self.ctx.fresh('k'))))
            if getattr(m, 'block', None) is not None:
                return Mx([zi(m.n)], [IV(1)], [[m.block]])
        raise Unsupported('matrix expected: %r' % (m,))

    def slh(self, name, n=None, parts=None):
        n = n if n is not None else self.int('n_' + name, 1).t
        parts = parts or [n]
        return Obj(CA.SLH, {'S': self.mat('S_' + name, parts, parts), 'L': self.mat('L_' + name, parts, [IV(1)]), 'H': self.op('H_' + name, herm=True)}, name)

    # -------------------------------------------------------------- dispatch
    def isinstance(self, I, o, c):
        if not isinstance(c, type):
            return False
        if isinstance(o, Mx):
            return issubclass(MA.Matrix, c)
        if isinstance(o, ND):
            return issubclass(np.ndarray, c)
        if isinstance(o, Sop):
            return issubclass(SO.SuperOperator, c)
        if isinstance(o, Space):
            return issubclass(HS.HilbertSpace, c)
        if isinstance(o, Q):
            o = self.q(o)
            if not o.op:
                return issubclass(SA.Scalar, c) or issubclass(sympy.Symbol, c) and False
            if issubclass(OA.Operator, c):
                return True
            if c is OA.ScalarTimesOperator:
                return o.p.is_scalar() and not o.p == nc.ONE
            if c is SA.Scalar or issubclass(c, (sympy.Basic, int, float, complex)):
                return False
            if not issubclass(c, OA.Operator):
                return False
            raise Unsupported('isinstance %s of an operator' % c.__name__)
        return od.ODomain.isinstance(self, I, o, c)

    def is_(self, I, a, b):
        if isinstance(b, Q) and not isinstance(a, Q):
            a, b = b, a
        if isinstance(a, Q):
            a = self.q(a)
            if b is OA.IdentityOperator:
                return a.op and a.p == nc.ONE
            if b is OA.ZeroOperator:
                return a.op and a.p.is_zero()
            if b is None:
                return False
        if isinstance(a, (Mx, ND, Sop, Space)) or isinstance(b, (Mx, ND, Sop, Space)):
            return a is b
        return od.ODomain.is_(self, I, a, b)

    def equal(self, I, a, b):
        if isinstance(a, (Q, Mx, Sop)) or isinstance(b, (Q, Mx, Sop)):
            if self.is_q(a) and self.is_q(b):
                x, y = self.q(a), self.q(b)
                if x.p == y.p:
                    return True
                if (x.p - y.p).is_const():
                    return False
                r = self.ctx.choose(2, 'equal') == 1
                if r:
                    raise Unsupported('operators assumed equal')
                return False
            if isinstance(a, type) or isinstance(b, type) or isinstance(a, (type(sympy.oo), type(sympy.zoo))) or isinstance(b, (type(sympy.oo), type(sympy.zoo))):
                return False
            return self.unequal_kinds(I, a, b)
        return od.ODomain.equal(self, I, a, b)

    def truth(self, I, v):
        if isinstance(v, (Q, Mx, Sop)):
            if isinstance(v, Mx):
                return True
            return True if isinstance(v, Sop) or self.q(v).op else not self.q(v).p.is_zero()
        if isinstance(v, Obj):
            return True
        return od.ODomain.truth(self, I, v)

    def binop(self, I, name, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return od.ODomain.binop(self, I, name, a, b)
        if isinstance(a, Space) and isinstance(b, Space):
            return Space()
        if isinstance(a, Sop) or isinstance(b, Sop):
            return self.sop_binop(name, a, b)
        if isinstance(a, ND) or isinstance(b, ND):
            return self.nd_binop(I, name, a, b)
        if isinstance(a, Mx) or isinstance(b, Mx):
            return self.mx_binop(name, a, b)
        a, b = self.q(a), self.q(b)
        op = a.op or b.op
        if name == '+':
            return Q(a.p + b.p, op)
        if name == '-':
            return Q(a.p - b.p, op)
        if name == '*':
            return Q(a.p * b.p, op)
        if name == '/':
            if b.op:
                raise Unsupported('division by an operator')
            if b.p.is_zero():
                return sympy.zoo
            return Q(a.p * nc.inverse(b.p), op)
        raise Unsupported('operation %s' % name)

    def native_binop(self, I, name, a, b):
        return NotImplemented

    def sop_binop(self, name, a, b):
        if name == '*' and isinstance(a, Sop) and isinstance(b, Sop):
            return Sop(lambda x: a.f(b.f(x)))
        if name in '+-' and isinstance(a, Sop) and isinstance(b, Sop):
            return Sop(lambda x: a.f(x) + (b.f(x) if name == '+' else -b.f(x)))
        if name == '*':
            s, c = (a, self.q(b)) if isinstance(a, Sop) else (b, self.q(a))
            if c.op and isinstance(a, Sop):
                return Q(s.f(c.p))
            if not c.op:
                return Sop(lambda x: c.p * s.f(x))
        raise Unsupported('operation %s on super-operators' % name)

    def mx_binop(self, name, a, b):
        if name == '*':
            if isinstance(a, Mx) and isinstance(b, Mx):
                return mmul(self, a, b)
            if isinstance(a, Mx):
                q = self.q(b)
                return Mx(a.rows, a.cols, [[x * q.p for x in r] for r in a.b], a.op or q.op)
            q = self.q(a)
            return Mx(b.rows, b.cols, [[q.p * x for x in r] for r in b.b], b.op or q.op)
        if name in '+-' and isinstance(a, Mx) and isinstance(b, Mx):
            return madd(self, a, b if name == '+' else b.map(lambda x: -x))
        if name == '/' and isinstance(a, Mx):
            q = self.q(b)
            return a.map(lambda x: x * nc.inverse(q.p))
        if name in '+-' and not (isinstance(a, Mx) and isinstance(b, Mx)):
            raise Unsupported('entrywise sum of a matrix and a number')
        raise Unsupported('operation %s on matrices' % name)

    def unary(self, I, op, v):
        nm = op if isinstance(op, str) else {ast.USub: '-', ast.UAdd: '+'}.get(op)
        if nm == '-':
            if isinstance(v, Q):
                q = self.q(v)
                return Q(-q.p, q.op)
            if isinstance(v, Mx):
                return v.map(lambda x: -x)
            if isinstance(v, Sop):
                return Sop(lambda x: -v.f(x))
        return od.ODomain.unary(self, I, op, v)

    def adj(self, v):
        if isinstance(v, Mx):
            return madj(v)
        if isinstance(v, Q):
            q = self.q(v)
            return Q(q.p.adj(), q.op)
        if self.is_q(v):
            q = self.q(v)
            return Q(q.p.adj(), q.op)
        raise Unsupported('adjoint of %r' % (v,))

    # -------------------------------------------------------------- attributes
    def getattr(self, I, o, name):
        if isinstance(o, Mx):
            if name == 'H':
                return madj(o)
            if name == 'T':
                return mT(o)
            if name == 'shape':
                return (SInt(tot(o.rows)), SInt(tot(o.cols)))
            if name == 'matrix':
                return MxArray(o)
            if name == 'space':
                return Space()
            return BoundMethod(o, name)
        if isinstance(o, Q):
            if name == 'space':
                return Space()
            if name in ('coeff',) and self.q(o).p.is_scalar():
                return Q(self.q(o).p, False)
            if name == 'term' and self.q(o).p.is_scalar():
                return OA.IdentityOperator
            return BoundMethod(o, name)
        if isinstance(o, Sop):
            return BoundMethod(o, name)
        if isinstance(o, (MxArray, Space)):
            return BoundMethod(o, name)
        if isinstance(o, ND):
            return self.nd_attr(I, o, name)
        return od.ODomain.getattr(self, I, o, name)

    def call_method(self, I, m, args, kwargs):
        o, nm = m.obj, m.name
        if isinstance(o, Mx):
            if nm in ('adjoint', 'dag'):
                return madj(o)
            if nm == 'transpose':
                return mT(o)
            if nm in ('expand', 'simplify_scalar'):
                return o
            if nm == 'trace' and tot(o.rows).eq(IV(1)):
                return Q(o.b[0][0])
        if isinstance(o, Q):
            if nm in ('adjoint', 'dag', 'conjugate'):
                return self.adj(o)
            if nm in ('expand', 'simplify_scalar'):
                return o
        if isinstance(o, MxArray):
            if nm == 'ravel':
                return self.elements(o.m)
        if isinstance(o, FL) and nm == 'tolist':
            return o
        if isinstance(o, ND):
            return self.nd_method(I, o, nm, args, kwargs)
        return od.ODomain.call_method(self, I, m, args, kwargs)

    def elements(self, m):
        """all entries of a column"""
        if not tot(m.cols).eq(IV(1)):
            raise Unsupported('entries of a matrix')
        if all(r.eq(IV(1)) for r in m.rows):
            return [Q(r[0], m.op) for r in m.b]
        if len(m.rows) == 1:
            return FL(m.rows[0], lambda k: Q(ix(m.name, zi(k))), 'list')
        raise Unsupported('entries of a partitioned column')

    def pre_call(self, I, f, args, kwargs):
        if isinstance(f, (types.BuiltinMethodType, BoundMethod)) and getattr(f, '__name__', getattr(f, 'name', None)) == 'format' and isinstance(getattr(f, '__self__', None), str):
            return SymStr()
        if isinstance(f, BoundMethod) and isinstance(f.obj, FL) and f.name in ('tolist', 'ravel', 'flatten'):
            return f.obj
        if isinstance(f, BoundMethod) and f.name == 'extend' and isinstance(f.obj, list) and isinstance(args[0], FL):
            k = z3.Int(self.ctx.fresh('e'))
            v = args[0].get(k)
            f.obj.append(Seg(k, zi(args[0].n), [v]))
            self.ctx.trail.append(lambda: f.obj.pop())
            return None
        if isinstance(f, types.MethodType) and isinstance(f.__self__, type) and f.__name__ == 'create':
            if issubclass(f.__self__, HS.ProductSpace) and all(isinstance(a, Space) for a in args):
                return Space()
            if issubclass(f.__self__, (OA.OperatorPlus, SO.SuperOperatorPlus)):
                return self.total(args)
            if issubclass(f.__self__, CA.SeriesProduct) and all(isinstance(a, Obj) and a.cls is CA.SLH for a in args):
                return functools.reduce(lambda x, y: series(self, x, y), args)
        if f is sum and isinstance(args[0], (list, tuple, FL)) and not isinstance(args[0], FL):
            xs = I.to_seq(args[0]).values() if not isinstance(args[0], (list, tuple)) else list(args[0])
            if any(isinstance(x, (Q, Sop, Seg)) for x in xs):
                return self.total(xs + list(args[1:]))
        if f is sum and isinstance(args[0], FL):
            k = z3.Int(self.ctx.fresh('s'))
            v = args[0].get(k)
            if isinstance(v, (Q, Sop)):
                r = self.total([Seg(k, zi(args[0].n), [v])])
                return r
        return od.ODomain.pre_call(self, I, f, args, kwargs)

    def total(self, items):
        """sum of operators or of super-operators"""
        items = [x for x in items if not (isinstance(x, int) and x == 0)]
        flat = [y for x in items for y in (x.items if isinstance(x, Seg) else [x])]
        if any(isinstance(x, Sop) or x is SO.ZeroSuperOperator for x in flat):
            def app(y, x):
                return P() if y is SO.ZeroSuperOperator else y.f(x)

            def f(x):
                r = P()
                for it in items:
                    if isinstance(it, Seg):
                        r = r + big_sum(it.k, it.n, sum((app(y, x) for y in it.items), P()))
                    else:
                        r = r + app(it, x)
                return r
            return Sop(f)
        r = P()
        for it in items:
            if isinstance(it, Seg):
                r = r + big_sum(it.k, it.n, sum((self.q(y).p for y in it.items), P()))
            else:
                r = r + self.q(it).p
        return Q(r)

    def for_hook(self, I, s, env, it):
        if isinstance(it, FL) and id(s) not in self.loops:
            return lambda: self.append_loop(I, s, env, it)
        return od.ODomain.for_hook(self, I, s, env, it)

    def append_loop(self, I, s, env, it):
        """a loop whose only effect is to append to lists that it does not read"""
        names, mut = od.stored(s.body)
        tgt = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        loc = set()
        for nm in names - tgt:
            try:
                I.lookup(nm, env)
            except PyRaise:
                loc.add(nm)
        if names - tgt - loc or s.orelse:
            raise Unsupported('loop at line %d has no invariant' % s.lineno)
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
                    raise Unsupported('loop at line %d has no invariant' % s.lineno)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in mut:
                    if n.func.attr != 'append':
                        raise Unsupported('loop at line %d has no invariant' % s.lineno)
        uses = sum(isinstance(n, ast.Name) and n.id in mut for b in s.body for n in ast.walk(b))
        calls = sum(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in mut
                    for b in s.body for n in ast.walk(b))
        if uses != calls:
            raise Unsupported('loop at line %d reads a list it builds' % s.lineno)
        lists = {nm: I.lookup(nm, env) for nm in mut}
        if not all(isinstance(v, list) for v in lists.values()):
            raise Unsupported('loop at line %d has no invariant' % s.lineno)
        n0 = {nm: len(v) for nm, v in lists.items()}
        k = z3.Int(self.ctx.fresh('it'))
        d0 = len(self.ctx.decisions)
        I.assign(s.target, it.get(k), env)
        I.exec_block(s.body, env)
        if len(self.ctx.decisions) != d0:
            raise Unsupported('case distinction in a loop without invariant')
        for nm, v in lists.items():
            new = v[n0[nm]:]
            del v[n0[nm]:]
            if new:
                v.append(Seg(k, zi(it.n), new))

    def getitem(self, I, o, i):
        if isinstance(o, Mx):
            return self.mx_item(o, i)
        if isinstance(o, MxArray):
            return self.mx_item(o.m, i)
        if isinstance(o, ND):
            return self.nd_item(I, o, i)
        return od.ODomain.getitem(self, I, o, i)

    def mx_item(self, m, i):
        i = i if isinstance(i, tuple) else (i, slice(None))

        def cut(sizes, s):
            n = tot(sizes)
            bounds = [z3.simplify(sum(sizes[:k], IV(0))) for k in range(len(sizes) + 1)]

            def at(x):
                for k, b in enumerate(bounds):
                    if self.entails(b == x):
                        return k
                raise Unsupported('slice inside a block')
            if isinstance(s, slice):
                if s.step is not None:
                    raise Unsupported('slice step')
                return at(zi(s.start) if s.start is not None else IV(0)), at(zi(s.stop) if s.stop is not None else n), False
            t = zi(s)
            if not self.entails(z3.And(t >= 0, t < n)):
                raise Unsupported('index range')
            k = at(t)
            if k >= len(sizes) or not self.entails(sizes[k] == 1):
                raise Unsupported('index inside a block')
            return k, k + 1, True
        r0, r1, ri = cut(m.rows, i[0])
        c0, c1, ci = cut(m.cols, i[1])
        b = [r[c0:c1] for r in m.b[r0:r1]]
        if ri and ci:
            return Q(b[0][0], m.op)
        x = Mx(m.rows[r0:r1], m.cols[c0:c1], b, m.op)
        if ri and not self.entails(tot(x.cols) == 1):
            x = mT(x)          # numpy: a row of an array is one-dimensional; Matrix makes it a column
        return x

    # -------------------------------------------------------------- arrays
    def nd_attr(self, I, o, name):
        if name == 'shape':
            return (SInt(o.r),) if o.c is None else (SInt(o.r), SInt(o.c))
        if name == 'T':
            return ND(o.c, o.r, lambda i, j: o.get(j, i))
        return BoundMethod(o, name)

    def nd_method(self, I, o, nm, args, kw):
        if nm in ('ravel', 'flatten'):
            if o.c is None:
                return FL(o.r, lambda t: o.get(norm(t), IV(0)), 'list')
            f = FL(o.r * o.c, lambda t: o.get(norm(ROW(o.c, zi(t))), norm(COL(o.c, zi(t)))), 'list')
            f.shape = (o.r, o.c)
            return f
        if nm == 'tolist':
            return self.nd_method(I, o, 'ravel', [], {}) if o.c is None else NotImplemented
        if nm == 'reshape':
            s = args[0] if len(args) == 1 else tuple(args)
            r, c = [z3.simplify(zi(x)) for x in s]
            if o.c is None and self.entails(c == 1):
                self.given('reshape keeps the number of entries', r == o.r)
                return ND(r, c, lambda i, j: o.get(i, IV(0)))
            if o.c is None:
                self.given('reshape keeps the number of entries', r * c == o.r)
                return ND(r, c, lambda i, j: o.get(norm(FLAT(c, zi(i), zi(j))), IV(0)))
            raise Unsupported('reshape')
        if nm == 'dot':
            b = args[0]
            if isinstance(b, ND):
                if not self.entails(o.c == b.r):
                    if not self.ctx.branch(o.c == b.r, 'shapes match'):
                        raise PyRaise(ValueError, 'shapes not aligned')
                k = z3.Int(self.ctx.fresh('d'))

                def get(i, j):
                    x, y = self.q(o.get(i, k)), self.q(b.get(k, j))
                    return Q(big_sum(k, o.c, x.p * y.p), x.op or y.op)
                return ND(o.r, b.c, get)
        if nm == 'all':
            i, j = z3.Ints(self.ctx.fresh('i') + ' ' + self.ctx.fresh('j'))
            raise Unsupported('all')
        if nm == '__getitem__':
            return self.nd_item(I, o, args[0])
        if nm == 'copy':
            return o
        raise Unsupported('array method %s' % nm)

    def nd_binop(self, I, name, a, b):
        if isinstance(a, ND) and isinstance(b, ND):
            same = z3.And(a.r == b.r, a.c == b.c)
            if not self.entails(same):
                raise Unsupported('broadcasting')
            return ND(a.r, a.c, lambda i, j: I.binop(_AST[name], a.get(i, j), b.get(i, j)))
        if isinstance(a, ND):
            return ND(a.r, a.c, lambda i, j: I.binop(_AST[name], a.get(i, j), b))
        return ND(b.r, b.c, lambda i, j: I.binop(_AST[name], a, b.get(i, j)))

    def nd_item(self, I, o, i):
        i = i if isinstance(i, tuple) else (i, slice(None))

        def ax(s, n):
            if isinstance(s, slice):
                if s.step is not None:
                    raise Unsupported('slice step')
                lo, hi = self.bound(s.start, n, 0), self.bound(s.stop, n, n)
                return lo, z3.simplify(z3.If(hi > lo, hi - lo, IV(0))), False
            t = zi(s)
            if not self.entails(z3.And(t >= 0, t < n)):
                if self.ctx.branch(z3.And(t >= 0, t < n), 'index in range'):
                    pass
                elif self.ctx.branch(z3.And(t < 0, t >= -n), 'negative index'):
                    t = t + n
                else:
                    raise PyRaise(IndexError, 'index')
            return z3.simplify(t), IV(1), True
        r0, rn, ri = ax(i[0], o.r)
        c0, cn, ci = ax(i[1], o.c)
        if ri and ci:
            return o.get(r0, c0)
        if ri:
            return ND(cn, None, lambda k, _: o.get(r0, c0 + zi(k)))
        if ci:
            return ND(rn, None, lambda k, _: o.get(r0 + zi(k), c0))
        return ND(rn, cn, lambda k, l: o.get(r0 + zi(k), c0 + zi(l)))

    def length(self, I, o):
        if isinstance(o, ND):
            return SInt(o.r)
        return od.ODomain.length(self, I, o)


class MxArray(Sym):
    def __init__(self, m):
        self.m = m


class Space(Sym):
    pass


_AST = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div}


# ------------------------------------------------------------------ contracts of functions

def c_zeros(D, I, a, kw):
    r, c = a[0]
    return Mx([zi(r)], [zi(c)], [[P()]], False)


def c_eye(D, I, a, kw):
    n = zi(a[0])
    return Mx([n], [n], [[nc.ONE]], False)


def c_block(D, I, a, kw):
    A, B, C, E = a
    return c_vstack(D, I, [(c_hstack(D, I, [(A, B)], {}), c_hstack(D, I, [(C, E)], {}))], {})


def c_vstack(D, I, a, kw):
    ms = list(a[0])
    if not D.entails(z3.And([tot(m.cols) == tot(ms[0].cols) for m in ms])):
        raise PyRaise(ValueError, 'stacking arrays of different widths')
    if not all(len(m.cols) == len(ms[0].cols) and D.entails(z3.And([x == y for x, y in zip(m.cols, ms[0].cols)])) for m in ms):
        raise Unsupported('stack of differently partitioned matrices')
    return Mx(sum((m.rows for m in ms), []), ms[0].cols, sum((m.b for m in ms), []), any(m.op for m in ms))


def c_hstack(D, I, a, kw):
    return mT(c_vstack(D, I, [[mT(m) for m in a[0]]], {}))


def c_matrix(D, I, a, kw):
    m = a[0]
    if isinstance(m, Mx):
        return m
    if isinstance(m, MxArray):
        return m.m
    return D.as_mx(m)


def c_exp(D, I, a, kw):
    return Q(nc.exp(D.q(a[0]).p), False)


def c_cos(D, I, a, kw):
    p = D.q(a[0]).p * P.const(0, 1)
    return Q((nc.exp(p) + nc.exp(-p)) * P.const(Fraction(1, 2)), False)


def c_sin(D, I, a, kw):
    p = D.q(a[0]).p * P.const(0, 1)
    return Q((nc.exp(p) - nc.exp(-p)) * P.const(0, Fraction(-1, 2)), False)


# numpy

def n_array(D, I, a, kw):
    x = a[0]
    if isinstance(x, ND):
        return x
    if isinstance(x, FL):
        return FlatND(x)
    if isinstance(x, (list, tuple)) and not any(isinstance(y, (list, tuple)) for y in x):
        return FlatND(to_fl(x))
    raise Unsupported('array of %r' % (x,))


class FlatND(ND):
    """one-dimensional array"""

    def __init__(self, fl):
        ND.__init__(self, fl.n, None, lambda i, _: fl.get(norm(i)))
        self.fl = fl


def n_hstack(D, I, a, kw):
    x, y = a[0]
    if not D.entails(x.r == y.r):
        if not D.ctx.branch(x.r == y.r, 'same height'):
            raise PyRaise(ValueError, 'dimensions must match')
    return ND(x.r, x.c + y.c, lambda i, j: od.vite(z3.simplify(zi(j) < x.c), x.get(i, j), y.get(i, z3.simplify(zi(j) - x.c))))


def n_vstack(D, I, a, kw):
    x, y = a[0]
    if not D.entails(x.c == y.c):
        if not D.ctx.branch(x.c == y.c, 'same width'):
            raise PyRaise(ValueError, 'dimensions must match')
    return ND(x.r + y.r, x.c, lambda i, j: od.vite(z3.simplify(zi(i) < x.r), x.get(i, j), y.get(z3.simplify(zi(i) - x.r), j)))


def n_diag(D, I, a, kw):
    v = a[0]
    if len(a) > 1 and not (isinstance(a[1], int) and a[1] == 0):
        raise Unsupported('diagonal')
    zero = Q(P(), False)
    return ND(v.r, v.r, lambda i, j: od.vite(z3.simplify(zi(i) == zi(j)), v.get(i, IV(0)), zero))


def n_ones(D, I, a, kw):
    one = Q(nc.ONE, False)
    return ND(zi(a[0]), None, lambda i, j: one)


def n_zeros(D, I, a, kw):
    zero = Q(P(), False)
    r, c = a[0]
    return ND(zi(r), zi(c), lambda i, j: zero)


def n_conj(D, I, a, kw):
    x = a[0]

    def get(i, j):
        q = D.q(x.get(i, j))
        return Q(q.p.conj(), q.op)
    return ND(x.r, x.c, get)


NUMPY = {np.array: n_array, np.hstack: n_hstack, np.vstack: n_vstack, np.diag: n_diag, np.ones: n_ones, np.zeros: n_zeros, np.conjugate: n_conj}


# ------------------------------------------------------------------ specifications

def im(p):
    """Im p = (p - p^+)/(2i)"""
    return (p - p.adj()) * P.const(0, Fraction(-1, 2))


def series(D, b, a):
    """b << a (Gough and James)"""
    S2, L2, H2 = [b.fields[x] for x in 'SLH']
    S1, L1, H1 = [a.fields[x] for x in 'SLH']
    S, L = mmul(D, S2, S1), madd(D, mmul(D, S2, L1), L2)
    x = mmul(D, madj(L2), mmul(D, S2, L1))
    return Obj(CA.SLH, {'S': S, 'L': L, 'H': Q(H1.p + H2.p + im(x.b[0][0]))}, 'series')


def same_slh(D, name, a, b):
    a, b = [o if isinstance(o, Obj) else None for o in (a, b)]
    if a is None:
        raise Unsupported('SLH object expected')
    D.same_mx(name + ': S', a.fields['S'], b.fields['S'])
    D.same_mx(name + ': L', a.fields['L'], b.fields['L'])
    D.same_p(name + ': H', a.fields['H'].p, b.fields['H'].p)


def setup(ctx, loops=None):
    return od.setup(ctx, cls=SDomain, loops=loops)


def t_series(ctx):
    D, I = setup(ctx)
    b = D.slh('b')
    a = D.slh('a', tot(b.fields['S'].rows))
    same_slh(D, 'series product', I.call_python(CA.SLH.series_with_slh, [b, a], {}), series(D, b, a))


def t_concat(ctx):
    D, I = setup(ctx)
    a, b = D.slh('a'), D.slh('b')
    r = I.call_python(CA.SLH.concatenate_slh, [a, b], {})
    na, nb = tot(a.fields['S'].rows), tot(b.fields['S'].rows)
    A, B = [x.fields['S'].b[0][0] for x in (a, b)]
    want = Obj(CA.SLH, {'S': Mx([na, nb], [na, nb], [[A, P()], [P(), B]]),
                        'L': Mx([na, nb], [IV(1)], [a.fields['L'].b[0], b.fields['L'].b[0]]), 'H': Q(a.fields['H'].p + b.fields['H'].p)})
    same_slh(D, 'concatenation', r, want)


def t_inverse(ctx):
    D, I = setup(ctx)
    a = D.slh('a')
    r = I.call_python(CA.SLH._series_inverse, [a], {})
    S = a.fields['S']
    n = tot(S.rows)
    # a << a^-1 = a^-1 << a = identity, if S is unitary
    s = next(iter(S.b[0][0].t))[1][0]

    def unit(p):
        while True:
            done = True
            t = P()
            for (m, w), c in p.t.items():
                for i in range(len(w) - 1):
                    if s in (w[i], w[i + 1]) and nc.adj_letter(w[i]) == w[i + 1]:
                        w = w[:i] + w[i + 2:]
                        done = False
                        break
                t = t + P({(m, w): c})
            p = t
            if done:
                return p
    for nm, x, y in (('a << inverse', a, r), ('inverse << a', r, a)):
        z = series(D, x, y)
        D.same_p(nm + ' (S unitary): S = 1', unit(z.fields['S'].b[0][0]), nc.ONE)
        D.same_p(nm + ' (S unitary): L = 0', unit(z.fields['L'].b[0][0]), P())
        D.same_p(nm + ' (S unitary): H = 0', unit(z.fields['H'].p), P())
    D.prove('number of channels', tot(r.fields['S'].rows) == n)


def fb_spec(D, a, i, j):
    """feedback from output block i to input block j, both of size one (Gough and James)"""
    S, L, H = a.fields['S'], a.fields['L'], a.fields['H'].p
    rs, cs = [k for k in range(len(S.rows)) if k != i], [k for k in range(len(S.cols)) if k != j]
    if not S.b[i][j].is_scalar():
        raise PyRaise(EX.AlgebraError, '1 - S_nn is an operator')
    u = nc.inverse(nc.ONE - S.b[i][j])
    drive = sum((L.b[k][0].adj() * S.b[k][j] for k in range(len(S.rows))), P())
    return Obj(CA.SLH, {'S': Mx([S.rows[k] for k in rs], [S.cols[k] for k in cs], [[S.b[k][l] + S.b[k][j] * u * S.b[i][l] for l in cs] for k in rs]),
                        'L': Mx([S.rows[k] for k in rs], [IV(1)], [[L.b[k][0] + S.b[k][j] * u * L.b[i][0]] for k in rs]),
                        'H': Q(H + im(drive * u * L.b[i][0]))}, 'feedback')


def block_at(D, sizes, x):
    """the block of size one that starts at channel x"""
    for k in range(len(sizes)):
        if D.entails(z3.And(z3.simplify(sum(sizes[:k], IV(0))) == x, sizes[k] == 1)):
            return k
    raise Unsupported('channel inside a block')


def c_map(D, I, args, kw):
    """SLH triple of map_channels({a: b}, n): channel a goes to b, the others keep their order (proved as map_channels)"""
    (a, b), = args[0].items if not isinstance(args[0], dict) else list(args[0].items())
    a, b, n = zi(a), zi(b), zi(args[1])
    if D.entails(b == n - 1):
        cols = D.parts_out
        k = block_at(D, cols, a)
        order = [m for m in range(len(cols)) if m != k] + [k]
        rows = [cols[m] for m in order]
        S = Mx(rows, cols, [[nc.ONE if order[r] == c else P() for c in range(len(cols))] for r in range(len(rows))])
    elif D.entails(a == n - 1):
        rows = D.parts_in
        k = block_at(D, rows, b)
        order = [m for m in range(len(rows)) if m != k] + [k]
        cols = [rows[m] for m in order]
        S = Mx(rows, cols, [[nc.ONE if order[c] == r else P() for c in range(len(cols))] for r in range(len(rows))])
    else:
        raise Unsupported('mapping of channels')
    return Obj(CA.SLH, {'S': S, 'L': Mx(S.rows, [IV(1)], [[P()] for _ in S.rows]), 'H': Q(P())}, 'perm')


def c_feedback(D, I, args, kw):
    a = args[0]
    n = tot(a.fields['S'].rows)
    kw = dict(zip(('out_port', 'in_port'), args[1:]), **kw)
    o = kw.get('out_port')
    i = kw.get('in_port')
    return fb_spec(D, a, block_at(D, a.fields['S'].rows, n - 1 if o is None else zi(o)), block_at(D, a.fields['S'].cols, n - 1 if i is None else zi(i)))


def t_feedback(ctx):
    D, I = setup(ctx)
    D.contracts[unwrap(CA.map_channels)] = c_map
    D.contracts[unwrap(CA.Circuit.feedback)] = c_feedback
    n = D.int('n', 1)        # the circuit has n + 1 channels
    one = IV(1)
    p = D.int('p', 0)
    if ctx.choose(2, 'output is not the last channel'):
        D.fact(p.t < n.t)
        rows, i, out = [p.t, one, n.t - p.t], 1, p
    else:
        rows, i, out = [n.t, one], 1, n
    q = D.int('q', 0)
    if ctx.choose(2, 'input is not the last channel'):
        D.fact(q.t < n.t)
        cols, j, inp = [q.t, one, n.t - q.t], 1, q
    else:
        cols, j, inp = [n.t, one], 1, n
    D.parts_out, D.parts_in = rows, cols
    a = Obj(CA.SLH, {'S': D.mat('S', rows, cols), 'L': D.mat('L', rows, [one]), 'H': D.op('H', herm=True)}, 'a')
    S = a.fields['S']
    k = ctx.choose(3, 'looped element of S: 0, a number, an operator')
    S.b[i][j] = [P(), nc.var('s'), S.b[i][j]][k]
    try:
        r = I.call_python(unwrap(CA.SLH._feedback), [a], {'out_port': out, 'in_port': inp})
    except PyRaise as e:
        if issubclass(e.exc_type, EX.AlgebraError):
            D.prove('refused only if 1 - S_nn is an operator', z3.BoolVal(k == 2))
            return
        raise
    D.prove('accepted only if 1 - S_nn is a number', z3.BoolVal(k < 2))
    same_slh(D, 'feedback', r, fb_spec(D, a, i, j))


def master(H, Ls, rho):
    """-i[H, rho] + sum_k D[L_k] rho; Ls: list of (k, n, element) or elements"""
    r = P.const(0, -1) * (H * rho - rho * H)
    for x in Ls:
        d = lambda L: L * rho * L.adj() - (L.adj() * L * rho + rho * L.adj() * L) * P.const(Fraction(1, 2))
        r = r + (big_sum(x[0], x[1], d(x[2])) if isinstance(x, tuple) else d(x))
    return r


def heis(H, Ls, X):
    r = P.const(0, 1) * (H * X - X * H)
    for x in Ls:
        d = lambda L: L.adj() * X * L - (L.adj() * L * X + X * L.adj() * L) * P.const(Fraction(1, 2))
        r = r + (big_sum(x[0], x[1], d(x[2])) if isinstance(x, tuple) else d(x))
    return r


def of_L(D, a):
    L = a.fields['L']
    k = z3.Int(D.ctx.fresh('lk'))
    return [(k, L.rows[0], ix(L.name, k))]


def c_symbol(D, I, a, kw):
    return Q(nc.letter(a[0], herm=a[0] == 'rho'))


def t_master(ctx):
    D, I = setup(ctx)
    D.classes[OA.OperatorSymbol] = c_symbol
    a = D.slh('a')
    if ctx.choose(2, 'rho given'):
        rho = D.op('r')
        r = I.call_python(CA.SLH.symbolic_master_equation, [a, rho], {})
    else:
        rho = Q(nc.letter('rho', herm=True))
        r = I.call_python(CA.SLH.symbolic_master_equation, [a], {})
    D.same_p('master equation', D.q(r).p, master(a.fields['H'].p, of_L(D, a), rho.p))


def t_heisenberg(ctx):
    D, I = setup(ctx)
    D.classes[OA.OperatorSymbol] = c_symbol
    a = D.slh('a')
    X = D.op('X')
    kw = {'expand_simplify': bool(ctx.choose(2, 'expand'))}
    if ctx.choose(2, 'X given'):
        kw['X'] = X
    r = I.call_python(CA.SLH.symbolic_heisenberg_eom, [a], kw)
    D.same_p('Heisenberg equation of motion', D.q(r).p, heis(a.fields['H'].p, of_L(D, a), X.p))


def t_liouvillian(ctx):
    D, I = setup(ctx)
    a = D.slh('a')
    r = I.call_python(CA.SLH.symbolic_liouvillian, [a], {})
    x = nc.letter('X')
    D.same_p('Liouvillian of the triple', r.f(x), master(a.fields['H'].p, of_L(D, a), x))


def t_liouville_list(ctx):
    D, I = setup(ctx)
    H = D.op('H', herm=True)
    k = ctx.choose(3, 'collapse operators')
    x = nc.letter('X')
    if k == 0:
        r, Ls = I.call_python(SO.liouvillian, [H], {}), []
    elif k == 1:
        Ls = [nc.letter('C1'), nc.letter('C2')]
        r = I.call_python(SO.liouvillian, [H, [Q(c) for c in Ls]], {})
    else:
        n = D.int('n', 0)
        i = z3.Int(ctx.fresh('i'))
        r = I.call_python(SO.liouvillian, [H, FL(n.t, lambda j: Q(ix('C', zi(j))), 'list')], {})
        Ls = [(i, n.t, ix('C', i))]
    D.same_p('Liouvillian', r.f(x) if isinstance(r, Sop) else D.q(r).p, master(H.p, Ls, x))


def t_lindblad(ctx):
    D, I = setup(ctx)
    x = nc.letter('X')
    if ctx.choose(2, 'scalar'):
        r = I.call_python(SO.lindblad, [D.scalar('c')], {})
        D.prove('no dissipation by a number', z3.BoolVal(r is SO.ZeroSuperOperator))
        return
    r = I.call_python(SO.lindblad, [D.op('C')], {})
    c = nc.letter('C')
    D.same_p('Lindblad term', r.f(x), c * x * c.adj() - (c.adj() * c * x + x * c.adj() * c) * P.const(Fraction(1, 2)))


def t_comm(fn, sign):
    def t(ctx):
        D, I = setup(ctx)
        a, b = D.op('A'), D.op('B')
        if ctx.choose(2, 'two operators'):
            D.same_p('(anti-)commutator', D.q(I.call_python(fn, [a, b], {})).p, a.p * b.p + sign * (b.p * a.p))
            return
        x = nc.letter('X')
        D.same_p('(anti-)commutator with A', I.call_python(fn, [a], {}).f(x), a.p * x + sign * (x * a.p))
    return t


def t_ident(fn):
    """expand / simplify_scalar keep the triple"""
    def t(ctx):
        D, I = setup(ctx)
        a = D.slh('a')
        same_slh(D, 'same triple', I.call_python(fn, [a], {}), a)
    return t


def t_cidentity(ctx):
    D, I = setup(ctx)
    r = I.call_python(type(CA.CIdentity)._toSLH, [Obj(type(CA.CIdentity))], {})
    same_slh(D, 'identity', r, Obj(CA.SLH, {'S': Mx([IV(1)], [IV(1)], [[nc.ONE]]), 'L': Mx([IV(1)], [IV(1)], [[P()]]), 'H': Q(P())}))


def unitary(D, m):
    n = len(m.rows)
    e = Mx(m.rows, m.cols, [[nc.ONE if i == j else P() for j in range(n)] for i in range(n)])
    D.same_mx('S is unitary', mmul(D, m, madj(m)), e)


def t_drive(ctx):
    D, I = setup(ctx)
    al = D.scalar('alpha')
    r = I.call_python(CC.CoherentDriveCC._toSLH, [Obj(CC.CoherentDriveCC, {'displacement': al})], {})
    same_slh(D, 'coherent drive', r, Obj(CA.SLH, {'S': Mx([IV(1)], [IV(1)], [[nc.ONE]]), 'L': Mx([IV(1)], [IV(1)], [[al.p]]), 'H': Q(P())}))


def t_phase(ctx):
    D, I = setup(ctx)
    ph = D.scalar('phi', real=True)
    r = I.call_python(CC.PhaseCC._toSLH, [Obj(CC.PhaseCC, {'phase': ph})], {})
    unitary(D, r.fields['S'])
    same_slh(D, 'phase shift', r, Obj(CA.SLH, {'S': Mx([IV(1)], [IV(1)], [[nc.exp(ph.p * P.const(0, 1))]]), 'L': Mx([IV(1)], [IV(1)], [[P()]]), 'H': Q(P())}))


def t_beamsplitter(ctx):
    D, I = setup(ctx)
    th = D.scalar('theta', real=True)
    r = I.call_python(CC.Beamsplitter._toSLH, [Obj(CC.Beamsplitter, {'mixing_angle': th})], {})
    unitary(D, r.fields['S'])
    c, s = c_cos(D, I, [th], {}).p, c_sin(D, I, [th], {}).p
    o = [IV(1), IV(1)]
    same_slh(D, 'beamsplitter', r, Obj(CA.SLH, {'S': Mx(o, o, [[c, -s], [s, c]]), 'L': Mx(o, [IV(1)], [[P()], [P()]]), 'H': Q(P())}))


def METHODS():
    X = CA.SLH
    for nm, t, f in (('SLH.series_with_slh', t_series, X.series_with_slh), ('SLH.concatenate_slh', t_concat, X.concatenate_slh),
                     ('SLH._series_inverse', t_inverse, X._series_inverse), ('SLH._feedback', t_feedback, X._feedback),
                     ('SLH.symbolic_master_equation', t_master, X.symbolic_master_equation),
                     ('SLH.symbolic_heisenberg_eom', t_heisenberg, X.symbolic_heisenberg_eom),
                     ('SLH.symbolic_liouvillian', t_liouvillian, X.symbolic_liouvillian),
                     ('SLH.expand', t_ident(X.expand), X.expand), ('SLH.simplify_scalar', t_ident(X.simplify_scalar), X.simplify_scalar),
                     ('SLH._toSLH', t_ident(X._toSLH), X._toSLH), ('SLH._creduce', t_ident(X._creduce), X._creduce),
                     ('CIdentity._toSLH', t_cidentity, type(CA.CIdentity)._toSLH),
                     ('CoherentDriveCC._toSLH', t_drive, CC.CoherentDriveCC._toSLH), ('PhaseCC._toSLH', t_phase, CC.PhaseCC._toSLH),
                     ('Beamsplitter._toSLH', t_beamsplitter, CC.Beamsplitter._toSLH),
                     ('liouvillian', t_liouville_list, SO.liouvillian), ('lindblad', t_lindblad, SO.lindblad),
                     ('commutator', t_comm(SO.commutator, -1), SO.commutator), ('anti_commutator', t_comm(SO.anti_commutator, 1), SO.anti_commutator)):
        yield nm, t, where(f)


def tasks():
    yield from METHODS()


def main(ts):
    from pyvc.engine import run_task
    for nm, t, w in ts:
        if len(sys.argv) > 1 and sys.argv[1] not in nm:
            continue
        r = run_task(nm, t, time_limit=120)
        print('%-45s %-10s %s  paths %d obl %d  %.1fs' % (nm, r.status, r.reason[:250], r.paths, len(r.obligations), r.secs))
        for o in r.failed()[:6]:
            print('   ', o.name, o.detail[:700], '|', o.path)


if __name__ == '__main__':
    main(tasks())
