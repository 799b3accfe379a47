"""Contracts of Matrix (C18), entry by entry, for every shape: the code of
each method runs on a numpy array of symbolic shape whose entries are letters
(operators) or scalars m[i,j]; the postcondition is stated for an arbitrary
entry.  These are the contracts of the block view used for SLH."""
import sys
from specs import slh
from specs.slh import *     # noqa: F401, F403
from specs.slh import _AST
from pyvc.engine import SymStr
AA = importlib.import_module('qnet.algebra.core.abstract_algebra')
PERM = importlib.import_module('qnet.utils.permutations')
AQ = importlib.import_module('qnet.algebra.core.abstract_quantum_algebra')
MT = MA.Matrix


class MDomain(slh.SDomain):
    def __init__(self, ctx):
        slh.SDomain.__init__(self, ctx)
        for f in (MA.zerosm, MA.identity_matrix, MA.block_matrix, MA.vstackm, MA.hstackm):
            self.contracts.pop(unwrap(f))
        self.classes.pop(MT)
        self.contracts[unwrap(AA.Expression.__init__)] = lambda D, I, a, kw: None

    def square(self, name, n=None, m=None, op=True, kind=None):
        n = n if n is not None else self.int('n_' + name, 0).t
        m = m if m is not None else self.int('m_' + name, 0).t
        k = kind or ('op' if op else 'scal')
        a = ND(n, m, lambda i, j: Q(ix(name, zi(i), zi(j), kind=k), op))
        return Obj(MT, {'matrix': a}, name)

    def binop(self, I, name, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return od.ODomain.binop(self, I, name, a, b)
        return slh.SDomain.binop(self, I, name, a, b)

    def setitem(self, I, o, i, v):
        if isinstance(o, ND) and isinstance(i, tuple) and len(i) == 2:
            r, c, old = zi(i[0]), zi(i[1]), o.get
            self.given('position inside the array', z3.And(r >= 0, r < o.r, c >= 0, c < o.c))
            self.ctx.set_attr(o, 'get', lambda a, b: od.vite(z3.simplify(z3.And(zi(a) == r, zi(b) == c)), v, old(a, b)))
            return
        return slh.SDomain.setitem(self, I, o, i, v)


def setup(ctx, loops=None):
    return od.setup(ctx, cls=MDomain, loops=loops)


def arr(v):
    if not isinstance(v, Obj) or not issubclass(v.cls, MT):
        raise Unsupported('Matrix expected: %r' % (v,))
    return v.fields['matrix']


def entries(D, name, m, r, c, want):
    """m has shape (r, c) and entry (i, j) is want(i, j)"""
    a = arr(m)
    if a.c is None:
        D.prove(name + ': two-dimensional', z3.BoolVal(False))
        return
    D.prove(name + ': shape', z3.And(a.r == r, a.c == c))
    i, j = z3.Int(D.ctx.fresh('i')), z3.Int(D.ctx.fresh('j'))
    D.ctx.assume(z3.And(i >= 0, i < a.r, j >= 0, j < a.c))
    q = D.q(a.get(i, j))
    w = want(i, j)
    w = w if isinstance(w, (Q, int)) or w is None else Q(w)
    D.same_p(name + ': entry', q.p, D.q(w).p)


def p_of(D, m):
    return lambda i, j: D.q(m.fields['matrix'].get(i, j)).p


def t_init(ctx):
    """Matrix(m) for an array, a Matrix, a list and a one-dimensional array"""
    D, I = setup(ctx)
    k = ctx.choose(4, 'argument')
    m = D.square('m')
    a = m.fields['matrix']
    if k == 0:
        entries(D, 'array', D.construct(I, MT, [a], {}), a.r, a.c, p_of(D, m))
    elif k == 1:
        entries(D, 'matrix', D.construct(I, MT, [m], {}), a.r, a.c, p_of(D, m))
    elif k == 2:
        v = FL(a.r, lambda t: Q(ix('v', zi(t))), 'list')
        entries(D, 'list', D.construct(I, MT, [v], {}), a.r, IV(1), lambda i, j: ix('v', i))
    else:
        v = ND(a.r, None, lambda t, _: Q(ix('v', zi(t))))
        entries(D, 'column', D.construct(I, MT, [v], {}), a.r, IV(1), lambda i, j: ix('v', i))


def t_addsub(nm, sign):
    def t(ctx):
        D, I = setup(ctx)
        a = D.square('a')
        x = arr(a)
        b = D.square('b', x.r, x.c)
        A, B = p_of(D, a), p_of(D, b)
        entries(D, nm, I.call_python(getattr(MT, nm), [a, b], {}), x.r, x.c, (lambda i, j: A(i, j) + sign * B(i, j)) if nm != '__rsub__' else lambda i, j: B(i, j) - A(i, j))
    return t


def t_radd(ctx):
    """an operator plus a matrix is entrywise"""
    D, I = setup(ctx)
    a, o = D.square('a'), D.op('X')
    A, x = p_of(D, a), arr(a)
    nm = ['__radd__', '__add__'][ctx.choose(2, 'side')]
    entries(D, nm, I.call_python(getattr(MT, nm), [a, o], {}), x.r, x.c, lambda i, j: A(i, j) + o.p)


def t_matmul(ctx):
    D, I = setup(ctx)
    a = D.square('a')
    x = arr(a)
    b = D.square('b', x.c)
    k = z3.Int(ctx.fresh('kk'))
    entries(D, 'product', I.call_python(MT.__mul__, [a, b], {}), x.r, arr(b).c, lambda i, j: big_sum(k, x.c, p_of(D, a)(i, k) * p_of(D, b)(k, j)))


def t_scale(ctx):
    """operator times matrix, matrix times operator, quotient by a number"""
    D, I = setup(ctx)
    a, o = D.square('a'), D.op('X') if ctx.choose(2, 'factor') else D.scalar('x')
    A, x = p_of(D, a), arr(a)
    k = ctx.choose(3 if not o.op else 2, 'operation')
    if k == 0:
        entries(D, 'matrix * x', I.call_python(MT.__mul__, [a, o], {}), x.r, x.c, lambda i, j: A(i, j) * o.p)
    elif k == 1:
        entries(D, 'x * matrix', I.call_python(MT.__rmul__, [a, o], {}), x.r, x.c, lambda i, j: o.p * A(i, j))
    else:
        entries(D, 'matrix / x', I.call_python(MT.__truediv__, [a, o], {}), x.r, x.c, lambda i, j: A(i, j) * nc.inverse(o.p))


def t_neg(ctx):
    D, I = setup(ctx)
    a = D.square('a')
    entries(D, 'negative', I.call_python(MT.__neg__, [a], {}), arr(a).r, arr(a).c, lambda i, j: -p_of(D, a)(i, j))


def t_transpose(ctx):
    D, I = setup(ctx)
    a = D.square('a')
    r = I.call_python(MT.transpose, [a], {}) if ctx.choose(2, 'T') else D.getattr(I, a, 'T')
    entries(D, 'transpose', r, arr(a).c, arr(a).r, lambda i, j: p_of(D, a)(j, i))


def t_adjoint(ctx):
    D, I = setup(ctx)
    a = D.square('a')
    r = [lambda: I.call_python(MT.adjoint, [a], {}), lambda: I.call_python(MT.dag, [a], {}), lambda: D.getattr(I, a, 'H')][ctx.choose(3, 'name')]()
    entries(D, 'adjoint', r, arr(a).c, arr(a).r, lambda i, j: p_of(D, a)(j, i).adj())


def t_conj(ctx):
    D, I = setup(ctx)
    a = D.square('a', op=False)
    entries(D, 'conjugate', I.call_python(MT.conjugate, [a], {}), arr(a).r, arr(a).c, lambda i, j: p_of(D, a)(i, j).conj())


def t_trace(ctx):
    D, I = setup(ctx)
    a = D.square('a')
    x = arr(a)
    k = z3.Int(ctx.fresh('k'))
    try:
        r = I.call_python(MT.trace, [a], {})
    except PyRaise as e:
        if issubclass(e.exc_type, EX.NonSquareMatrix):
            D.prove('refused only if not square', x.r != x.c)
            return
        raise
    D.prove('accepted only if square', x.r == x.c)
    D.same_p('trace', D.q(r).p, big_sum(k, x.r, p_of(D, a)(k, k)))


def t_item(ctx):
    D, I = setup(ctx)
    a = D.square('a')
    x = arr(a)
    k = ctx.choose(4, 'index')
    p, q = D.int('p', 0), D.int('q', 0)
    D.fact(z3.And(p.t < x.r, q.t < x.c))
    A = p_of(D, a)
    g = lambda i: I.call_python(MT.__getitem__, [a, i], {})
    if k == 0:
        D.same_p('entry', D.q(g((p, q))).p, A(p.t, q.t))
    elif k == 1:
        entries(D, 'upper left block', g((slice(None, p), slice(None, q))), p.t, q.t, A)
    elif k == 2:
        entries(D, 'lower right block', g((slice(p, None), slice(q, None))), x.r - p.t, x.c - q.t, lambda i, j: A(p.t + i, q.t + j))
    else:
        entries(D, 'column', g((slice(None, None), q)), x.r, IV(1), lambda i, j: A(i, q.t))


def t_ewise(ctx):
    """element_wise applies the function to every entry and keeps the shape"""
    D, I = setup(ctx)
    a, o = D.square('a'), D.op('X')
    A = p_of(D, a)

    class F(Sym):
        pass
    f = F()
    D.call_value = lambda I, g, args, kw: Q(args[1].p * D.q(args[0]).p + D.q(kw['b']).p)
    b = D.op('B')
    entries(D, 'element_wise', I.call_python(MT.element_wise, [a, f, o], {'b': b}), arr(a).r, arr(a).c, lambda i, j: o.p * A(i, j) + b.p)


def t_same(nm):
    def t(ctx):
        D, I = setup(ctx)
        a = D.square('a')
        entries(D, nm, I.call_python(getattr(MT, nm), [a], {}), arr(a).r, arr(a).c, p_of(D, a))
    return t


def t_stack(ctx):
    D, I = setup(ctx)
    a = D.square('a')
    x = arr(a)
    if ctx.choose(2, 'direction'):
        b = D.square('b', x.r)
        r = I.call_python(MA.hstackm, [(a, b)], {})
        y = arr(b)
        two(D, 'hstackm', r, x.r, x.c + y.c, lambda i, j: z3.simplify(j < x.c), p_of(D, a), lambda i, j: p_of(D, b)(i, j - x.c))
    else:
        b = D.square('b', None, x.c)
        y = arr(b)
        r = I.call_python(MA.vstackm, [(a, b)], {})
        two(D, 'vstackm', r, x.r + y.r, x.c, lambda i, j: i < x.r, p_of(D, a), lambda i, j: p_of(D, b)(i - x.r, j))


def two(D, name, m, r, c, cond, f, g):
    a = arr(m)
    D.prove(name + ': shape', z3.And(a.r == r, a.c == c))
    i, j = z3.Int(D.ctx.fresh('i')), z3.Int(D.ctx.fresh('j'))
    D.ctx.assume(z3.And(i >= 0, i < r, j >= 0, j < c))
    q = D.q(a.get(i, j))
    w = f(i, j) if D.ctx.branch(cond(i, j), 'block') else g(i, j)
    D.same_p(name + ': entry', q.p, w)


def t_block(ctx):
    D, I = setup(ctx)
    a = D.square('a')
    x = arr(a)
    b = D.square('b', x.r)
    c = D.square('c', None, x.c)
    d = D.square('d', arr(c).r, arr(b).c)
    r = I.call_python(MA.block_matrix, [a, b, c, d], {})
    m = arr(r)
    n1, n2 = x.r, x.c
    D.prove('block_matrix: shape', z3.And(m.r == n1 + arr(c).r, m.c == n2 + arr(b).c))
    i, j = z3.Int(ctx.fresh('i')), z3.Int(ctx.fresh('j'))
    ctx.assume(z3.And(i >= 0, i < m.r, j >= 0, j < m.c))
    q = D.q(m.get(i, j))
    up, left = ctx.branch(i < n1, 'upper'), ctx.branch(j < n2, 'left')
    w = p_of(D, [[d, c], [b, a]][up][left])(i if up else i - n1, j if left else j - n2)
    D.same_p('block_matrix: entry', q.p, w)


def t_diag(ctx):
    D, I = setup(ctx)
    n = D.int('n', 0)
    k = ctx.choose(3, 'function')
    if k == 0:
        v = ND(n.t, None, lambda t, _: Q(ix('v', zi(t))))
        two(D, 'diagm', I.call_python(MA.diagm, [v], {}), n.t, n.t, lambda i, j: i == j, lambda i, j: ix('v', i), lambda i, j: P())
    elif k == 1:
        two(D, 'identity_matrix', I.call_python(MA.identity_matrix, [n], {}), n.t, n.t, lambda i, j: i == j, lambda i, j: nc.ONE, lambda i, j: P())
    else:
        m = D.int('m', 0)
        entries(D, 'zerosm', I.call_python(MA.zerosm, [(n, m)], {}), n.t, m.t, lambda i, j: P())


def t_perm(ctx):
    """e_j -> e_perm(j): entry (i, j) is 1 exactly if i = perm(j)"""
    from specs import perms as SP
    fn = MA.permutation_matrix
    box = {}
    A, B = z3.Ints('pa! pb!')

    def inv(st):
        e, k, p = st['op_matrix'], st.k, box['p']
        v = zi(e.get(A, B))
        n = zi(p.n)
        return [('shape', z3.And(e.r == n, e.c == n)),
                ('entries so far', z3.ForAll([A, B], z3.Implies(z3.And(A >= 0, A < n, B >= 0, B < n),
                                                                v == z3.If(z3.And(B < k, A == zi(p.get(B))), IV(1), IV(0)))))]
    D, I = setup(ctx)
    D.contracts[unwrap(PERM.check_permutation)] = SP.c_check
    D.contracts[unwrap(np.zeros)] = D.contracts[np.zeros] = lambda D, I, a, kw: ND(zi(a[0][0]), zi(a[0][1]), lambda i, j: SInt(IV(0)))

    def shape(D, old):
        f = z3.Function(ctx.fresh('om'), _ii, _ii, _ii)
        return ND(old.r, old.c, lambda i, j: SInt(f(zi(i), zi(j))))
    D.loops[id(od.loops_of(fn)[0])] = Loop(inv, {'op_matrix': shape})
    p = D.intlist('perm', kind='tuple')
    box['p'] = p
    r = I.call_python(fn, [p], {})
    a = arr(r)
    n = zi(p.n)
    D.prove('shape', z3.And(a.r == n, a.c == n))
    i, j = z3.Int(ctx.fresh('i')), z3.Int(ctx.fresh('j'))
    D.prove('e_j goes to e_perm(j)', z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n), zi(a.get(i, j)) == z3.If(i == zi(p.get(j)), IV(1), IV(0))))


_ii = z3.IntSort()


def t_slh_init(ctx):
    """the constructor stores the triple it was given (numbers become multiples of the identity) and refuses misaligned data"""
    D, I = setup(ctx)
    opS, opL, opH = [bool(ctx.choose(2, 'operators in ' + x)) for x in 'SLH']
    S, L = D.square('S', op=opS), D.square('L', op=opL)
    H = D.op('H') if opH else D.scalar('h')
    s, l = arr(S), arr(L)
    D.all_ops = {'S': opS, 'L': opL}
    try:
        o = D.construct(I, CA.SLH, [S, L, H], {})
    except PyRaise as e:
        if issubclass(e.exc_type, ValueError):
            D.prove('refused only if misaligned', z3.Or(s.r != l.r, l.c != 1))
            return
        raise
    D.prove('accepted only if aligned', z3.And(s.r == l.r, l.c == 1))
    entries(D, 'S', o.fields['S'], s.r, s.c, p_of(D, S))
    entries(D, 'L', o.fields['L'], l.r, l.c, p_of(D, L))
    D.same_p('H', D.q(o.fields['H']).p, H.p)
    D.prove('H is an operator', z3.BoolVal(D.q(o.fields['H']).op))


def t_perm_slh(ctx):
    """S moves channel j to perm(j), no coupling, no Hamiltonian"""
    from specs import perms as SP
    D, I = setup(ctx)
    p = D.intlist('perm', kind='tuple')
    n = zi(p.n)
    D.fact(SP.is_perm(p))

    def c(D, I, a, kw):
        D.prove('permutation passed on', z3.BoolVal(a[0] is p))
        one, zero = Q(nc.ONE, False), Q(P(), False)
        return Obj(MT, {'matrix': ND(n, n, lambda i, j: od.vite(z3.simplify(zi(i) == zi(p.get(zi(j)))), one, zero))})
    D.contracts[unwrap(MA.permutation_matrix)] = c
    D.classes.pop(CA.SLH)
    o = I.call_python(CA.CPermutation._toSLH, [Obj(CA.CPermutation, {'_permutation': p, '_cdim': SInt(n)})], {})
    two(D, 'S', o.fields['S'], n, n, lambda i, j: i == zi(p.get(j)), lambda i, j: nc.ONE, lambda i, j: P())
    entries(D, 'L', o.fields['L'], n, IV(1), lambda i, j: P())
    D.same_p('H', D.q(o.fields['H']).p, P())


def t_eq(ctx):
    """equal only if the shapes agree and all entries are equal"""
    D, I = setup(ctx)
    a, b = D.square('a'), D.square('b')
    x, y = arr(a), arr(b)
    r = I.call_python(MT.__eq__, [a, b], {})
    t = r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))
    i, j = z3.Ints('ei! ej!')
    D.prove('equal iff same shape and entries', t == z3.And(x.r == y.r, x.c == y.c, z3.ForAll([i, j], z3.Implies(
        z3.And(i >= 0, i < x.r, j >= 0, j < x.c), EQ(z3.StringVal('a'), z3.StringVal('b'), i, j)))))


# ------------------------------------------------------------ block structure
CUT = z3.Function('cut', z3.IntSort(), z3.BoolSort())
ZERO = z3.Function('zero_entry', z3.IntSort(), z3.IntSort(), z3.BoolSort())


class Cell(Sym):
    """the entry at an absolute position of the whole matrix"""
    def __init__(self, i, j):
        self.i, self.j = zi(i), zi(j)

    def vite(self, c, b):
        return Cell(z3.If(c, self.i, b.i), z3.If(c, self.j, b.j))


class Parts(Sym):
    """a tuple of positive integers adding up to e - o whose partial sums,
    other than 0 and the total, are the b - o with isb(b)"""
    def __init__(self, o, e, isb):
        self.o, self.e, self.isb = o, e, isb


class BDomain(MDomain):
    """Matrix.block_structure: entries are positions of the whole matrix, with
    an arbitrary set of them equal to zero"""
    def __init__(self, ctx):
        MDomain.__init__(self, ctx)
        self.region = None

    def nd_binop(self, I, name, a, b):
        raise Unsupported('arithmetic on entries')

    def equal(self, I, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ND) and isinstance(y, (int, float)) and y == 0:
                z = ND(x.r, x.c, lambda i, j: SBool(ZERO(x.get(i, j).i, x.get(i, j).j)))
                z.cells = x
                return z
            if isinstance(x, Cell) and isinstance(y, (int, float)) and y == 0:
                return SBool(ZERO(x.i, x.j))
        raise Unsupported('comparison of %r and %r' % (a, b))

    def nd_method(self, I, o, nm, args, kw):
        if nm in ('all', 'any') and not args and not kw:
            i, j = z3.Int(self.ctx.fresh('ai')), z3.Int(self.ctx.fresh('aj'))
            v = o.get(i, j)
            if not isinstance(v, SBool):
                raise Unsupported('entries as truth values')
            dom = z3.And(i >= 0, i < o.r, j >= 0, j < o.c)
            c = o.cells.get(i, j) if hasattr(o, 'cells') else None
            if c is not None:
                s = [z3.simplify(c.i - i), z3.simplify(c.j - j)]
                if not any(z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.eq(i) or t.eq(j)) for u in s for t in subterms(u)):
                    # the same cells, named by their absolute position
                    dom, v = z3.And(i >= s[0], i < s[0] + o.r, j >= s[1], j < s[1] + o.c), SBool(ZERO(i, j))
            return SBool(z3.ForAll([i, j], z3.Implies(dom, v.t)) if nm == 'all' else z3.Exists([i, j], z3.And(dom, v.t)))
        return MDomain.nd_method(self, I, o, nm, args, kw)

    def place(self, m):
        """(o, e): m is the block of the rows and columns o..e-1"""
        x = arr(m)
        i, j = z3.Int(self.ctx.fresh('pi')), z3.Int(self.ctx.fresh('pj'))
        o = z3.simplify(x.get(IV(0), IV(0)).i)
        c = x.get(i, j)
        self.given('a square block on the diagonal', z3.And(x.r == x.c, x.r >= 1, z3.Implies(
            z3.And(i >= 0, i < x.r, j >= 0, j < x.c), z3.And(c.i == o + i, c.j == o + j))))
        return o, z3.simplify(o + x.r)

    def getattr(self, I, o, name):
        if isinstance(o, Obj) and issubclass(o.cls, MT) and name == 'block_structure':
            a, e = self.place(o)
            self.given('the recursion is on a smaller matrix', e - a < self.region[1] - self.region[0])
            isb = z3.Function(self.ctx.fresh('isb'), z3.IntSort(), z3.BoolSort())
            define_cut(self, isb, a, e)
            return Parts(a, e, lambda t: isb(t))
        return MDomain.getattr(self, I, o, name)

    def binop(self, I, name, a, b):
        if name == '+' and isinstance(b, Parts) and isinstance(a, tuple):
            for x in reversed(a):
                k = zi(x)
                self.given('a block has at least one row', k >= 1)
                b = Parts(z3.simplify(b.o - k), b.e, lambda t, b=b: z3.Or(t == b.o, b.isb(t)))
            return b
        return MDomain.binop(self, I, name, a, b)


def subterms(t):
    yield t
    for x in t.children():
        yield from subterms(x)


def define_cut(D, p, o, e):
    """p(b) iff o < b < e and there are only zeros between the rows and columns
    o..b-1 and b..e-1"""
    wi, wj = [z3.Function(D.ctx.fresh(x), z3.IntSort(), z3.IntSort()) for x in ('wi', 'wj')]
    b, i, j = z3.Ints('b! ci! cj!')

    def within(i, j):
        return z3.And(i >= o, i < b, j >= b, j < e)
    D.fact(z3.ForAll([b], z3.Implies(p(b), z3.And(b > o, b < e)), patterns=[p(b)]))
    D.fact(z3.ForAll([b, i, j], z3.Implies(z3.And(p(b), within(i, j)), ZERO(i, j)), patterns=[z3.MultiPattern(p(b), ZERO(i, j))]))
    D.fact(z3.ForAll([b, i, j], z3.Implies(z3.And(p(b), within(i, j)), ZERO(j, i)), patterns=[z3.MultiPattern(p(b), ZERO(j, i))]))
    D.fact(z3.ForAll([b], z3.Implies(z3.And(b > o, b < e, z3.Not(p(b))), z3.And(
        within(wi(b), wj(b)), z3.Not(z3.And(ZERO(wi(b), wj(b)), ZERO(wj(b), wi(b)))))), patterns=[p(b)]))


def t_blocks(ctx):
    """block_structure: positive integers adding up to the dimension, whose
    partial sums are exactly the positions that cut the matrix into two
    diagonal blocks with zeros elsewhere; refused only for non-square ones"""
    box = {}
    fn = MT.__dict__['block_structure'].fget

    def inv(st):
        o, e = box['place']
        b = z3.Int('b!')
        return [('no cut before', z3.ForAll([b], z3.Implies(z3.And(b > o, b < o + 1 + st.k), z3.Not(CUT(b))), patterns=[CUT(b)]))]
    D, I = od.setup(ctx, cls=BDomain, loops={(fn, 0): Loop(inv)})
    ctx.solver.set('mbqi', False)
    o, n, m = z3.Int('o!'), D.int('n', 1).t, D.int('m', 1).t
    a = Obj(MT, {'matrix': ND(n, m, lambda i, j: Cell(o + zi(i), o + zi(j)))}, 'a')
    box['place'] = D.region = (o, o + n)
    define_cut(D, CUT, o, o + n)
    try:
        r = I.call_python(fn, [a], {})
    except PyRaise as x:
        if not issubclass(x.exc_type, AttributeError):
            raise
        D.prove('refused only if not square', n != m)
        return
    D.prove('accepted only if square', n == m)
    if isinstance(r, tuple):
        b = Parts(o + n, o + n, lambda t: z3.BoolVal(False))
        for x in reversed(r):
            D.prove('a block has at least one row', zi(x) >= 1)
            b = Parts(b.o - zi(x), b.e, (lambda t, p=b, last=b.e: z3.Or(z3.And(t == p.o, p.o != last), p.isb(t))))
        r = b
    if not isinstance(r, Parts):
        raise Unsupported('result %r' % (r,))
    D.prove('the sizes add up to the dimension', z3.And(r.o == o, r.e == o + n))
    b = z3.Int(ctx.fresh('b'))
    ctx.assume(z3.And(b > o, b < o + n))
    if ctx.choose(2, 'direction'):
        ctx.assume(r.isb(b))
        D.prove('between two blocks there are only zeros', CUT(b))
    else:
        ctx.assume(CUT(b))
        D.prove('no block can be split further', r.isb(b))

class Rest(Sym):
    """what _get_blocks returns for a block of the matrix: part t of the sizes"""
    def __init__(self, place, sizes, first=()):
        self.place, self.sizes, self.first = place, sizes, tuple(first)


class GDomain(BDomain):
    """Matrix._get_blocks: block-diagonal pieces, or the pieces of a column"""
    def __init__(self, ctx):
        BDomain.__init__(self, ctx)
        self.contracts[unwrap(MT._get_blocks)] = self.c_get_blocks

    def where(self, m):
        """(row, column, rows, columns) of a matrix inside the whole one"""
        x = arr(m)
        i, j = z3.Int(self.ctx.fresh('pi')), z3.Int(self.ctx.fresh('pj'))
        c0, c = x.get(IV(0), IV(0)), x.get(i, j)
        ro, co = z3.simplify(c0.i), z3.simplify(c0.j)
        self.given('a contiguous part of the matrix', z3.Implies(
            z3.And(i >= 0, i < x.r, j >= 0, j < x.c), z3.And(c.i == ro + i, c.j == co + j)))
        return ro, co, x.r, x.c

    def c_get_blocks(self, D, I, a, kw):
        m, bs = a
        bs = to_fl(bs)
        ro, co, r, c = p = self.where(m)
        k = z3.Int(self.ctx.fresh('k'))
        self.given('fewer sizes in the recursion', z3.And(zi(bs.n) >= 0, zi(bs.n) < zi(self.sizes.n)))
        self.given('positive sizes', z3.Implies(z3.And(k >= 0, k < zi(bs.n)), zi(bs.get(k)) >= 1))
        if not self.ctx.branch(self.fsum(bs) == r, 'sizes add up'):
            raise PyRaise(ValueError)
        if self.ctx.branch(c == 1, 'column'):
            return Rest(p, bs)
        self.given('square block on the diagonal, or nothing left', z3.And(r == c, z3.Or(r == 0, ro == co)))
        isb = z3.Function(self.ctx.fresh('isb'), z3.IntSort(), z3.BoolSort())
        define_cut(self, isb, ro, ro + r)
        if self.ctx.choose(2, 'recursion: refused/accepted') == 0:
            t = z3.Int(self.ctx.fresh('t'))
            self.ctx.assume(z3.And(t >= 1, t < zi(bs.n), z3.Not(isb(ro + self.off(bs, t)))))
            self.bad = t + 1
            raise PyRaise(ValueError)
        self.good = lambda t: self.ctx.assume(z3.Implies(z3.And(t >= 1, t < zi(bs.n)), isb(ro + self.off(bs, t))))
        return Rest(p, bs)

    def off(self, fl, t):
        ps, o = self.prefix(fl)
        return z3.simplify(ps(z3.simplify(o + t)) - ps(o))

    def binop(self, I, name, a, b):
        if name == '+' and isinstance(b, Rest) and isinstance(a, tuple):
            return Rest(b.place, b.sizes, a + b.first)
        return BDomain.binop(self, I, name, a, b)


def t_get_blocks(ctx):
    """_get_blocks(sizes): one piece per size, in order - the diagonal blocks of
    a square matrix, the row blocks of a column; refused exactly if the sizes
    do not add up to the rows or something is left outside the blocks"""
    D, I = od.setup(ctx, cls=GDomain)
    ctx.solver.set('mbqi', False)
    o, p = z3.Int('o!'), z3.Int('p!')
    n, m = D.int('n', 0).t, D.int('m', 0).t
    col = ctx.branch(m == 1, 'column')
    if not col:
        ctx.assume(o == p)
        p = o
    a = Obj(MT, {'matrix': ND(n, m, lambda i, j: Cell(o + zi(i), p + zi(j)))}, 'a')
    bs = D.intlist('sizes')
    D.sizes = bs
    L = zi(bs.n)
    k, k2 = z3.Ints('k! k2!')
    D.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L), zi(bs.get(k)) >= 1), patterns=[zi(bs.get(k))]))
    ps, _ = D.prefix(bs)
    for t in (IV(0), L - 1):
        D.prefix_at(bs, t)
    def grow(t):
        return ps(t) >= ps(IV(1)) + t - 1

    def inside(k):
        return ps(L) - ps(L - k) >= k
    D.induct('offsets grow', grow, L, 1, hint=lambda t: D.prefix_at(bs, t))
    D.induct('offsets stay inside', inside, L, hint=lambda k: D.prefix_at(bs, L - k - 1))

    def at(t):
        # instances of what was just proved by induction
        D.prefix_at(bs, t - 1)
        D.prefix_at(bs, t)
        ctx.assume(z3.Implies(z3.And(t >= 1, t <= L), z3.And(grow(t), ps(L) - ps(t) >= L - t)))
    define_cut(D, CUT, o, o + n)
    S = ps(L)
    D.bad, D.good = None, None
    try:
        r = I.call_python(MT._get_blocks, [a, bs], {})
    except PyRaise as x:
        if not issubclass(x.exc_type, ValueError):
            raise
        if col:
            D.prove('column: refused only if the sizes do not add up', z3.Or(S != n))
            return
        # assume that nothing justifies the refusal
        ctx.assume(z3.And(n == m, S == n))
        for t in [IV(1)] + ([D.bad] if D.bad is not None else []):
            at(t)
            ctx.assume(z3.Implies(z3.And(t >= 1, t < L), CUT(o + ps(t))))
        D.prove('refused only if not square, of another size or not block diagonal', z3.BoolVal(False))
        return
    D.prove('the sizes add up to the rows', S == n)
    if not col:
        D.prove('accepted only if square', n == m)
    if isinstance(r, tuple):
        D.prove('no block for no size', L == len(r))
        return
    if not isinstance(r, Rest) or len(r.first) != 1:
        raise Unsupported('result %r' % (r,))
    D.prefix_at(bs, IV(0))
    D.prove('one block per size', L == 1 + zi(r.sizes.n))
    ro, co, rr, cc = D.where(r.first[0])
    D.prove('first block', z3.And(ro == o, rr == ps(IV(1)), co == p, cc == (IV(1) if col else rr)))
    t = z3.Int(ctx.fresh('t'))
    ctx.assume(z3.And(t >= 1, t < L))
    at(t)
    lo, hi = D.off(r.sizes, t - 1), D.off(r.sizes, t)
    D.prove('block', z3.And(r.place[0] + lo == o + ps(t), r.place[0] + hi == o + ps(t + 1), r.place[1] == (p if col else r.place[0])))
    if not col:
        if D.good:
            D.good(t - 1)
        D.prove('only zeros outside the blocks', CUT(o + ps(t)))

def delta(i, j):
    return ix('delta', norm(zi(i)), norm(zi(j)), kind='scal')


class NoiseDomain(MDomain):
    """Heisenberg equation with noises: matrices entry by entry"""
    shared = None

    def __init__(self, ctx):
        MDomain.__init__(self, ctx)
        # entries of the identity are a real number delta[i,j] (t_diag proves which)
        self.contracts[unwrap(MA.identity_matrix)] = lambda D, I, a, kw: Obj(
            MT, {'matrix': ND(zi(a[0]), zi(a[0]), lambda i, j: Q(delta(i, j), False))})

    def nd_method(self, I, o, nm, args, kw):
        if nm in ('ravel', 'flatten') and o.c is not None and self.entails(z3.Or(o.c == 1, o.r == 1)):
            f = FL(z3.simplify(o.r * o.c), (lambda t: o.get(norm(t), IV(0))) if self.entails(o.c == 1) else (lambda t: o.get(IV(0), norm(t))), 'list')
            f.shape = (o.r, o.c)
            return f
        return MDomain.nd_method(self, I, o, nm, args, kw)

    def adj(self, v):
        if isinstance(v, Obj) and issubclass(v.cls, MT):
            return self.I.call_python(MT.adjoint, [v], {})
        return MDomain.adj(self, v)

    def getattr(self, I, o, name):
        if isinstance(o, Obj) and issubclass(o.cls, MT) and name == 'space':
            return Space()
        return MDomain.getattr(self, I, o, name)

    def length(self, I, o):
        if isinstance(o, Space):
            self.shared = self.ctx.choose(2, 'S and X share a degree of freedom') == 1
            return int(self.shared)
        return MDomain.length(self, I, o)


def canon(D, p):
    """bound variables of nested sums numbered from the inside, whatever the
    order in which the sums were formed"""
    sub = {}
    for k in {k for m, w in p.t for k in [a for a, _ in m] + list(w)}:
        for nm in (k, nc.LETTERS[k].adj_key if k in nc.LETTERS else None):
            if nm in slh.SUMS:
                k0, n, core = slh.SUMS[nm]
                if z3.simplify(n).eq(IV(1)):
                    sub[nm] = canon(D, slh.psub(core, [(k0, IV(0))]))
                    continue
                v = z3.Int(D.ctx.fresh('cv'))
                sub[nm] = big_sum(v, n, canon(D, slh.psub(core, [(k0, v)])))
    return p.subst(sub)


def t_heis_noise(ctx):
    """Heisenberg equation with noises: the deterministic part plus
    A^dag S^dag [X, L] + [L^dag, X] S A + tr((S^dag X S - X) Lambda^T) with
    Lambda_ij = A_i^dag A_j; without the last one only if no operator of S acts
    where X does"""
    slh.VECTORS[0] = True
    try:
        heis_noise(ctx)
    finally:
        slh.VECTORS[0] = False


def heis_noise(ctx):
    D, I = od.setup(ctx, cls=NoiseDomain)
    D.I = I
    n = D.int('n', 1).t
    S, L, A = D.square('S', n, n), D.square('L', n, IV(1)), D.square('A', n, IV(1))
    X, H = D.op('X'), D.op('H', herm=True)
    a = Obj(CA.SLH, {'S': S, 'L': L, 'H': H}, 'a')
    r = I.call_python(CA.SLH.symbolic_heisenberg_eom, [a], {'X': X, 'noises': A, 'expand_simplify': bool(ctx.choose(2, 'expand'))})
    i, j, k = [z3.Int(ctx.fresh(x)) for x in 'ijk']
    s = lambda i, j: ix('S', i, j, kind='op')
    l, b = [(lambda i, nm=nm: ix(nm, i, IV(0), kind='op')) for nm in 'LA']
    x = X.p
    want = heis(H.p, [(k, n, l(k))], x)
    want = want + big_sum(j, n, big_sum(k, n, b(k).adj() * s(j, k).adj()) * (x * l(j) - l(j) * x))
    want = want + big_sum(j, n, big_sum(k, n, (l(k).adj() * x - x * l(k).adj()) * s(k, j)) * b(j))
    if D.shared:
        lam = lambda i, j: b(i).adj() * b(j)
        want = want + big_sum(i, n, big_sum(j, n, (big_sum(k, n, s(k, i).adj() * x * s(k, j)) - delta(i, j) * x) * lam(i, j)))
    D.same_p('Heisenberg equation with noises', canon(D, D.q(r).p), canon(D, want))

def METHODS():
    for nm, t, f in (('Matrix.__init__', t_init, MT.__init__), ('Matrix.__add__', t_addsub('__add__', 1), MT.__add__),
                     ('Matrix.__sub__', t_addsub('__sub__', -1), MT.__sub__), ('Matrix.__rsub__', t_addsub('__rsub__', -1), MT.__rsub__),
                     ('Matrix.__radd__', t_radd, MT.__radd__), ('Matrix.__mul__', t_matmul, MT.__mul__), ('Matrix.__rmul__', t_scale, MT.__rmul__),
                     ('Matrix.__neg__', t_neg, MT.__neg__), ('Matrix.transpose', t_transpose, MT.transpose), ('Matrix.adjoint', t_adjoint, MT.adjoint),
                     ('Matrix.conjugate', t_conj, MT.conjugate), ('Matrix.trace', t_trace, MT.trace), ('Matrix.__getitem__', t_item, MT.__getitem__),
                     ('Matrix.element_wise', t_ewise, MT.element_wise), ('Matrix.expand', t_same('expand'), MT.expand),
                     ('Matrix.simplify_scalar', t_same('simplify_scalar'), MT.simplify_scalar),
                     ('hstackm, vstackm', t_stack, MA.hstackm), ('block_matrix', t_block, MA.block_matrix),
                     ('diagm, identity_matrix, zerosm', t_diag, MA.diagm), ('permutation_matrix', t_perm, MA.permutation_matrix),
                     ('CPermutation._toSLH', t_perm_slh, CA.CPermutation._toSLH),
                     ('SLH.__init__', t_slh_init, CA.SLH.__init__),
                     ('Matrix.block_structure', t_blocks, MT.__dict__['block_structure'].fget),
                     ('SLH.symbolic_heisenberg_eom (noises)', t_heis_noise, CA.SLH.symbolic_heisenberg_eom),
                     ('Matrix._get_blocks', t_get_blocks, MT._get_blocks)):
        yield nm, t, where(f)


def tasks():
    yield from METHODS()


if __name__ == '__main__':
    slh.main(tasks())
