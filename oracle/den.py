"""Independent numeric meaning of QNET expressions.

Deliberately shares no code with qnet: an expression is a syntax tree, its
value a matrix / vector / number computed from textbook definitions.  Used
(a) to replay counterexamples on the real code and (b) for the bounded
stand-ins.  Tensors carry the list of local spaces they live on."""
import hashlib

import numpy as np
import sympy

from pyvc import live as L

NF = 12          # truncation of an infinite ladder; comparisons use the low corner


class NoDen(Exception):
    """no numeric meaning (abstract circuit, divergent sum ...)"""


def _rng(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'big'))


def _cplx(r, *shape):
    return r.standard_normal(shape) + 1j * r.standard_normal(shape)


class Env:
    def __init__(self, seed=0, nf=NF, over=None):
        self.seed, self.nf = seed, nf
        self.over = dict(over or {})
        self.sub = {}           # sub-expression -> (expression, Env): its value instead of its own

    def with_(self, d):
        e = Env(self.seed, self.nf, self.over)
        e.over.update(d)
        e.sub = self.sub
        return e

    # ------------------------------------------------ spaces
    def dim(self, ls):
        if isinstance(ls, L.SPA.SpinSpace):
            return int(2 * ls.spin) + 1
        if ls._dimension is not None:
            return int(ls._dimension)
        return self.nf

    def is_fock(self, ls):
        return ls._dimension is None

    def corner(self, ls):
        d = self.dim(ls)
        return d if not self.is_fock(ls) else max(3, d // 3)

    # ------------------------------------------------ scalars
    def symbol(self, s):
        if s in self.over:
            return self.over[s]
        if isinstance(s, L.IDX.IdxSym):
            return 1
        r = _rng(self.seed, 'sym', s.name, getattr(s, '_primed', 0))
        if s.is_integer:
            return int(r.integers(1, 3))
        if s.is_positive:
            return float(0.3 + 0.6 * r.random())
        if s.is_real:
            return float(1.4 * r.random() - 0.7)
        if isinstance(s, sympy.Dummy):
            r = _rng(self.seed, 'dummy', s.dummy_index)
        return complex(*(1.4 * r.random(2) - 0.7))

    def sympy(self, e):
        if isinstance(e, (int, float, complex, np.number)):
            return complex(e)
        e = sympy.sympify(e)
        sub = {}
        for s in e.free_symbols:
            v = self.symbol(s)
            sub[s] = sympy.Integer(v) if isinstance(v, (int, np.integer)) else sympy.sympify(v)
        v = e.subs(sub)
        v = v.doit()
        try:
            return complex(v.evalf())
        except TypeError as x:
            raise NoDen('scalar %s' % v)


def low(ls):
    return str(ls)


def sort_spaces(sp):
    return tuple(sorted(set(sp), key=lambda s: (str(s.label), type(s).__name__)))


class Op:
    """matrix on a sorted tuple of local spaces"""

    def __init__(self, spaces, m):
        self.spaces, self.m = tuple(spaces), m


class Ket:
    """vector on a sorted tuple of local spaces; spaces None: the zero vector"""

    def __init__(self, spaces, v, bra=False):
        self.spaces, self.v, self.bra = spaces, v, bra


class Sop:
    """superoperator: apply(M on spaces) with matrix on vec(row major)"""

    def __init__(self, spaces, m):
        self.spaces, self.m = tuple(spaces), m


def dims(env, spaces):
    return [env.dim(s) for s in spaces]


def extend(env, o, spaces):
    """operator on a larger set of spaces"""
    if o.spaces == spaces:
        return o.m
    rest = tuple(s for s in spaces if s not in o.spaces)
    if len(rest) + len(o.spaces) != len(spaces):
        raise NoDen('bad extension')
    d = dims(env, o.spaces)
    dr = dims(env, rest)
    n = len(spaces)
    if int(np.prod(d + dr)) > 2000:
        raise NoDen('too large')
    m = np.kron(o.m, np.eye(int(np.prod(dr)))) if rest else o.m
    cur = list(o.spaces) + list(rest)
    m = m.reshape(d + dr + d + dr)
    perm = [cur.index(s) for s in spaces]
    m = m.transpose(perm + [n + p for p in perm])
    D = int(np.prod(d + dr))
    return m.reshape(D, D)


def kperm(env, k, spaces):
    if k.spaces == spaces:
        return k.v
    if set(k.spaces) != set(spaces):
        raise NoDen('ket on different spaces')
    d = dims(env, k.spaces)
    v = k.v.reshape(d)
    return v.transpose([k.spaces.index(s) for s in spaces]).reshape(-1)


def _join(*os):
    return sort_spaces([s for o in os if o.spaces for s in o.spaces])


def op_mul(env, a, b):
    sp = _join(a, b)
    return Op(sp, extend(env, a, sp) @ extend(env, b, sp))


def op_add(env, a, b):
    sp = _join(a, b)
    return Op(sp, extend(env, a, sp) + extend(env, b, sp))


def op_const(c):
    return Op((), np.array([[c]], dtype=complex))


def ket_add(env, a, b):
    if a.spaces is None:
        return b
    if b.spaces is None:
        return a
    if a.bra != b.bra:
        raise NoDen('ket + bra')
    return Ket(a.spaces, a.v + kperm(env, b, a.spaces), a.bra)


def ket_mul(env, a, b):
    if a.spaces is None or b.spaces is None:
        return Ket(None, None, a.bra)
    if set(a.spaces) & set(b.spaces):
        raise NoDen('tensor on same space')
    sp = sort_spaces(a.spaces + b.spaces)
    v = Ket(a.spaces + b.spaces, np.kron(a.v, b.v), a.bra)
    return Ket(sp, kperm(env, v, sp), a.bra)


def op_ket(env, a, k):
    if k.spaces is None:
        return k
    if not set(a.spaces) <= set(k.spaces):
        raise NoDen('operator acts outside the ket space')
    return Ket(k.spaces, extend(env, a, k.spaces) @ k.v, k.bra)


def braket(env, a, b):
    """<a|b>"""
    if a.spaces is None or b.spaces is None:
        return 0j
    return complex(np.vdot(a.v, kperm(env, b, a.spaces)))


def ketbra(env, a, b):
    if a.spaces is None or b.spaces is None:
        return op_const(0)
    sp = _join(a, b)
    if set(a.spaces) != set(b.spaces):
        raise NoDen('ketbra across spaces')
    return Op(sp, np.outer(kperm(env, a, sp), kperm(env, b, sp).conj()))


def ptrace(env, o, over):
    """partial trace; identity on missing spaces gives dimension factors"""
    sp = _join(o, Op(over, None))
    m = extend(env, o, sp)
    keep = tuple(s for s in sp if s not in over)
    d = dims(env, sp)
    n = len(sp)
    t = m.reshape(d + d)
    for i in sorted([sp.index(s) for s in over], reverse=True):
        t = np.trace(t, axis1=i, axis2=i + t.ndim // 2)
    D = int(np.prod(dims(env, keep))) if keep else 1
    return Op(keep, t.reshape(D, D))


def sop_extend(env, s, spaces):
    if s.spaces == spaces:
        return s.m
    rest = tuple(x for x in spaces if x not in s.spaces)
    d, dr = dims(env, s.spaces), dims(env, rest)
    D, R = int(np.prod(d)), int(np.prod(dr))
    if (D * R) ** 2 > 1500:
        raise NoDen('too large')
    # index (i r, j q) <- (i' r, j' q)
    t = s.m.reshape(D, D, D, D)
    big = np.einsum('ijkl,rs,qt->irjqkslt', t, np.eye(R), np.eye(R))
    n = len(spaces)
    cur = list(s.spaces) + list(rest)
    dd = d + dr
    big = big.reshape(dd + dd + dd + dd)
    perm = [cur.index(x) for x in spaces]
    big = big.transpose([p + k * n for k in range(4) for p in perm])
    return big.reshape((D * R) ** 2, (D * R) ** 2)


def sop_mul(env, a, b):
    sp = _join(a, b)
    return Sop(sp, sop_extend(env, a, sp) @ sop_extend(env, b, sp))


def sop_add(env, a, b):
    sp = _join(a, b)
    return Sop(sp, sop_extend(env, a, sp) + sop_extend(env, b, sp))


def sop_apply(env, s, o):
    sp = _join(s, o)
    m = extend(env, o, sp)
    r = sop_extend(env, s, sp) @ m.reshape(-1)
    return Op(sp, r.reshape(m.shape))


def sop_pre(env, o):
    D = o.m.shape[0]
    if D * D > 1500:
        raise NoDen('too large')
    return Sop(o.spaces, np.kron(o.m, np.eye(D)))


def sop_post(env, o):
    D = o.m.shape[0]
    if D * D > 1500:
        raise NoDen('too large')
    return Sop(o.spaces, np.kron(np.eye(D), o.m.T))


def sop_adj(env, s):
    # SuperAdjoint is the dual under the trace pairing: Tr[M (S N)] = Tr[(S* M) N]
    n = s.m.shape[0]
    d = int(round(n ** 0.5))
    t = np.arange(n).reshape(d, d).T.reshape(-1)
    return Sop(s.spaces, s.m.T[np.ix_(t, t)])


# ---------------------------------------------------------------- labels

def index_value(env, x):
    """numeric / string value of a label or index expression"""
    if isinstance(x, L.IDX.SymbolicLabelBase):
        e = x.expr
        v = sympy.sympify(e).subs({s: (env.symbol(s)) for s in e.free_symbols})
        if isinstance(x, L.IDX.SpinIndex):
            return ('m', sympy.Rational(v))
        if isinstance(x, L.IDX.FockLabel):
            i = int(v)
            if i < 0 or i >= len(x.hs.basis_labels):
                raise NoDen('label out of range')
            return x.hs.basis_labels[i]
        if isinstance(x, L.IDX.StrLabel):
            return str(v)
        return int(v)
    if isinstance(x, sympy.Basic):
        return int(x.subs({s: env.symbol(s) for s in x.free_symbols}))
    return x


def position(env, ls, label):
    """index of the basis vector a label names; None when outside"""
    v = index_value(env, label)
    if isinstance(v, tuple):
        i = v[1] + ls.spin
        if i != int(i):
            raise NoDen('half-integer label')
        v = int(i)
    if isinstance(v, str):
        if isinstance(ls, L.SPA.SpinSpace) or ls._basis is not None:
            if v in ls._basis:
                return ls._basis.index(v)
        if v.lstrip('-').isdigit():
            v = int(v)
        else:
            raise NoDen('label %r' % v)
    v = int(v)
    if v < 0 or v >= env.dim(ls):
        return None
    return v


def basis_vec(env, ls, label):
    i = position(env, ls, label)
    v = np.zeros(env.dim(ls), complex)
    if i is None:
        if env.is_fock(ls) and True:
            return v
        raise NoDen('label out of range')
    v[i] = 1
    return v


# ---------------------------------------------------------------- operators

def ladder(env, ls):
    d = env.dim(ls)
    return np.diag(np.sqrt(np.arange(1, d)), 1).astype(complex)


def expm(m):
    w = np.linalg.norm(m, 2)
    k = max(0, int(np.ceil(np.log2(max(w, 1e-9)))) + 4)
    a = m / 2 ** k
    r = np.eye(len(m), dtype=complex)
    t = np.eye(len(m), dtype=complex)
    for i in range(1, 22):
        t = t @ a / i
        r = r + t
    for _ in range(k):
        r = r @ r
    return r


def param(env, args):
    """numbers a symbol's arguments stand for"""
    out = []
    for a in args:
        if isinstance(a, L.AA.Expression):
            out.append(complex(den(a, env)))
        elif isinstance(a, (int, float, complex, sympy.Basic)):
            out.append(env.sympy(a))
        else:
            out.append(complex(hash_val(a)))
    return out


def hash_val(a):
    return float(_rng('arg', str(a)).random())


def poly(env, key, shape, args):
    """a quadratic matrix polynomial in the arguments; random but fixed"""
    r = _rng(env.seed, *key)
    m = _cplx(r, *shape)
    for i, x in enumerate(args):
        m = m + x * _cplx(r, *shape) + x * x * _cplx(r, *shape)
    if len(args) > 1:
        m = m + args[0] * args[1] * _cplx(r, *shape)
    return m


def local_spaces(hs):
    if hs is L.HSA.TrivialSpace:
        return ()
    if isinstance(hs, L.HSA.LocalSpace):
        return (hs,)
    if isinstance(hs, L.HSA.ProductSpace):
        return sort_spaces(x for o in hs.args for x in local_spaces(o))
    raise NoDen('full space')


def corner_mask(env, spaces):
    ix = [np.arange(env.dim(s)) < env.corner(s) for s in spaces]
    m = np.array([True])
    for b in ix:
        m = np.logical_and.outer(m, b).reshape(-1)
    return m


def symbol_support(env, spaces):
    """random symbols act only on the lowest levels of a ladder"""
    ix = [np.arange(env.dim(s)) < (3 if env.is_fock(s) else env.dim(s)) for s in spaces]
    m = np.array([True])
    for b in ix:
        m = np.logical_and.outer(m, b).reshape(-1)
    return m


def derivative(f, env, derivs, vals):
    """d^n f at the point given by env (real-direction central differences)"""
    syms = []
    for s, n in derivs:
        syms.extend([s] * int(n))
    if len(syms) > 3:
        raise NoDen('high derivative')
    point = {}
    for s, v in vals:
        point[s] = den_scalar(v, env)
    base = env.with_({})
    for s in set(syms):
        x = point[s] if s in point else env.symbol(s)
        point[s] = x

    h = 0.04
    C = [(1, 4 / 5), (2, -1 / 5), (3, 4 / 105), (4, -1 / 280)]

    def g(rest, pt):
        if not rest:
            return f(base.with_(pt))
        s = rest[0]
        tot = None
        for k, c in C:
            p1, p2 = dict(pt), dict(pt)
            p1[s] = pt[s] + k * h
            p2[s] = pt[s] - k * h
            d = lin(env, [(c / h, g(rest[1:], p1)), (-c / h, g(rest[1:], p2))])
            tot = d if tot is None else lin(env, [(1, tot), (1, d)])
        return tot
    return g(syms, point)


def lin(env, terms):
    tot = None
    for c, x in terms:
        y = scale(env, c, x)
        tot = y if tot is None else plus(env, tot, y)
    return tot


def scale(env, c, x):
    if isinstance(x, Op):
        return Op(x.spaces, c * x.m)
    if isinstance(x, Sop):
        return Sop(x.spaces, c * x.m)
    if isinstance(x, Ket):
        if x.bra:
            c = np.conj(c)
        return x if x.spaces is None else Ket(x.spaces, c * x.v, x.bra)
    return c * x


def plus(env, x, y):
    if isinstance(x, Op):
        return op_add(env, x, y)
    if isinstance(x, Sop):
        return sop_add(env, x, y)
    if isinstance(x, Ket):
        return ket_add(env, x, y)
    return x + y


def range_values(env, r):
    n = type(r).__name__
    if n == 'IndexOverList':
        return list(r.values)
    if n == 'IndexOverRange':
        step = r.step
        return list(range(r.start_from, r.to + (1 if step >= 0 else -1), step))
    if n == 'IndexOverFockSpace':
        return list(range(env.dim(r.hs)))
    raise NoDen('range %s' % n)


def assignments(env, ranges):
    if not ranges:
        yield {}
        return
    for v in range_values(env, ranges[0]):
        for rest in assignments(env, ranges[1:]):
            d = {ranges[0].index_symbol: v}
            d.update(rest)
            yield d


def den_scalar(x, env):
    if isinstance(x, L.AA.Expression):
        return den(x, env)
    return env.sympy(x)


def den(x, env):
    """Op / Ket / Sop / complex"""
    if env.sub and isinstance(x, L.AA.Expression) and x in env.sub:
        return den(*env.sub[x])
    n = type(x).__name__
    h = globals().get('_d_' + n)
    if h is not None:
        return h(x, env)
    for base, h in BASES:
        if isinstance(x, base):
            return h(x, env)
    if isinstance(x, (int, float, complex, sympy.Basic)):
        return env.sympy(x)
    raise NoDen('no meaning for %s' % n)


# scalars
def _d_ScalarValue(x, env):
    return den_scalar(x.args[0], env)


def _d_Zero(x, env):
    return 0j


def _d_One(x, env):
    return 1 + 0j


def _d_ScalarPlus(x, env):
    return sum(den_scalar(o, env) for o in x.args)


def _d_ScalarTimes(x, env):
    r = 1 + 0j
    for o in x.args:
        r *= den_scalar(o, env)
    return r


def power(b, e):
    if e == int(e.real) and e.imag == 0:
        k = int(e.real)
        if b == 0 and k < 0:
            raise NoDen('1/0')
        return b ** k
    if b == 0:
        raise NoDen('0**x')
    return np.exp(e * np.log(complex(b)))


def _d_ScalarPower(x, env):
    return power(den_scalar(x.args[0], env), complex(den_scalar(x.args[1], env)))


def sum_over(x, env):
    tot = None
    for d in assignments(env, list(x.args[1:])):
        try:
            t = den(x.args[0], env.with_(d))
        except NoDen:
            raise
        tot = t if tot is None else plus(env, tot, t)
    if tot is None:
        t = getattr(x, 'name', type(x).__name__)
        return {'ScalarIndexedSum': 0j, 'OperatorIndexedSum': op_const(0), 'KetIndexedSum': Ket(None, None)}[t]
    return tot


def _d_ScalarIndexedSum(x, env):
    if any(type(r).__name__ == 'IndexOverFockSpace' and env.is_fock(r.hs) for r in x.args[1:]):
        pass
    return sum_over(x, env)


_d_OperatorIndexedSum = _d_KetIndexedSum = sum_over


def _deriv(x, env):
    kw = x.kwargs
    return derivative(lambda e: den(x.args[0], e), env, list(kw['derivs']), list(kw['vals'] or ()))


_d_ScalarDerivative = _d_OperatorDerivative = _d_StateDerivative = _d_SuperOperatorDerivative = _deriv


def _d_BraKet(x, env):
    return braket(env, den(x.args[0], env), den(x.args[1], env))


# operators
def _d_IdentityOperator(x, env):
    return op_const(1)


def _d_ZeroOperator(x, env):
    return op_const(0)


def _opsym(x, env):
    sp = local_spaces(x._hs)
    D = int(np.prod(dims(env, sp))) if sp else 1
    m = poly(env, ('op', type(x).__name__, x.args[0], [str(s) for s in sp]), (D, D), param(env, x.args[1:]))
    k = symbol_support(env, sp)
    return Op(sp, m * np.outer(k, k))


def _d_OperatorSymbol(x, env):
    return _opsym(x, env)


def _d_Create(x, env):
    return Op((x.space,), ladder(env, x.space).conj().T)


def _d_Destroy(x, env):
    return Op((x.space,), ladder(env, x.space))


def _d_Phase(x, env):
    ls = x.space
    return Op((ls,), np.diag(np.exp(1j * den_scalar(x.args[0], env) * np.arange(env.dim(ls)))))


def _d_Displace(x, env):
    a = ladder(env, x.space)
    al = den_scalar(x.args[0], env)
    return Op((x.space,), expm(al * a.conj().T - np.conj(al) * a))


def _d_Squeeze(x, env):
    a = ladder(env, x.space)
    e = den_scalar(x.args[0], env)
    ad = a.conj().T
    return Op((x.space,), expm(e / 2 * ad @ ad - np.conj(e) / 2 * a @ a))


def _spin(ls):
    s = float(ls.spin)
    d = int(2 * s) + 1
    m = -s + np.arange(d)
    jp = np.zeros((d, d), complex)
    for i in range(d - 1):
        jp[i + 1, i] = np.sqrt(s * (s + 1) - m[i] * (m[i] + 1))
    return m, jp


def _d_Jz(x, env):
    return Op((x.space,), np.diag(_spin(x.space)[0]).astype(complex))


def _d_Jplus(x, env):
    return Op((x.space,), _spin(x.space)[1])


def _d_Jminus(x, env):
    return Op((x.space,), _spin(x.space)[1].T)


def _d_LocalSigma(x, env):
    ls = x.space
    return Op((ls,), np.outer(basis_vec(env, ls, x.args[0]), basis_vec(env, ls, x.args[1])))


def _d_LocalProjector(x, env):
    v = basis_vec(env, x.space, x.args[0])
    return Op((x.space,), np.outer(v, v))


def _d_OperatorPlus(x, env):
    return lin(env, [(1, den(o, env)) for o in x.args])


def _d_OperatorTimes(x, env):
    r = op_const(1)
    for o in x.args:
        r = op_mul(env, r, den(o, env))
    return r


def _d_ScalarTimesOperator(x, env):
    return scale(env, den_scalar(x.args[0], env), den(x.args[1], env))


_d_ScalarTimesKet = _d_ScalarTimesSuperOperator = _d_ScalarTimesOperator


def _d_Commutator(x, env):
    a, b = den(x.args[0], env), den(x.args[1], env)
    return lin(env, [(1, op_mul(env, a, b)), (-1, op_mul(env, b, a))])


def op_adj(o):
    return Op(o.spaces, o.m.conj().T)


def _d_Adjoint(x, env):
    return op_adj(den(x.args[0], env))


def _d_OperatorPlusMinusCC(x, env):
    a = den(x.args[0], env)
    return lin(env, [(1, a), (x.kwargs.get('sign', 1), op_adj(a))])


def _d_OperatorTrace(x, env):
    return ptrace(env, den(x.args[0], env), local_spaces(x.kwargs['over_space']))


def _d_PseudoInverse(x, env):
    o = den(x.args[0], env)
    return Op(o.spaces, np.linalg.pinv(o.m))


def _d_NullSpaceProjector(x, env):
    o = den(x.args[0], env)
    return Op(o.spaces, np.eye(len(o.m)) - np.linalg.pinv(o.m) @ o.m)


def _d_KetBra(x, env):
    return ketbra(env, den(x.args[0], env), den(x.args[1], env))


def _d_SuperOperatorTimesOperator(x, env):
    return sop_apply(env, den(x.args[0], env), den(x.args[1], env))


# kets
def _d_ZeroKet(x, env):
    return Ket(None, None)


def _d_TrivialKet(x, env):
    return Ket((), np.ones(1, complex))


def _ketsym(x, env):
    sp = local_spaces(x._hs)
    D = int(np.prod(dims(env, sp))) if sp else 1
    args = param(env, x.args[1:])
    v = poly(env, ('ket', x.args[0], [str(s) for s in sp]), (D,), args)
    v = v * symbol_support(env, sp)
    return Ket(sp, v / np.linalg.norm(v))


def _d_KetSymbol(x, env):
    return _ketsym(x, env)


def _d_BasisKet(x, env):
    return Ket((x.space,), basis_vec(env, x.space, x.args[0]))


def _d_CoherentStateKet(x, env):
    al = den_scalar(x.args[0], env)
    n = np.arange(env.dim(x.space))
    f = np.cumprod(np.concatenate([[1.0], 1 / np.sqrt(np.arange(1, len(n)))]))
    return Ket((x.space,), np.exp(-abs(al) ** 2 / 2) * al ** n * f)


def _d_KetPlus(x, env):
    return lin(env, [(1, den(o, env)) for o in x.args])


def _d_TensorKet(x, env):
    r = Ket((), np.ones(1, complex))
    for o in x.args:
        r = ket_mul(env, r, den(o, env))
    return r


def _d_OperatorTimesKet(x, env):
    return op_ket(env, den(x.args[0], env), den(x.args[1], env))


def _d_Bra(x, env):
    k = den(x.args[0], env)
    return Ket(k.spaces, k.v, True)     # stored as the ket of which it is the bra


# superoperators
def _d_IdentitySuperOperator(x, env):
    return Sop((), np.ones((1, 1), complex))


def _d_ZeroSuperOperator(x, env):
    return Sop((), np.zeros((1, 1), complex))


def _d_SuperOperatorSymbol(x, env):
    sp = local_spaces(x._hs)
    D = int(np.prod(dims(env, sp))) if sp else 1
    if D * D > 1500:
        raise NoDen('too large')
    m = poly(env, ('sop', x.args[0], [str(s) for s in sp]), (D * D, D * D), param(env, x.args[1:]))
    return Sop(sp, m)


def _d_SuperOperatorPlus(x, env):
    return lin(env, [(1, den(o, env)) for o in x.args])


def _d_SuperOperatorTimes(x, env):
    r = Sop((), np.ones((1, 1), complex))
    for o in x.args:
        r = sop_mul(env, r, den(o, env))
    return r


def _d_SuperAdjoint(x, env):
    return sop_adj(env, den(x.args[0], env))


def _d_SPre(x, env):
    return sop_pre(env, den(x.args[0], env))


def _d_SPost(x, env):
    return sop_post(env, den(x.args[0], env))


class Raw:
    """the syntax tree cls(*args, **kwargs) as such, never simplified"""

    def __init__(self, cls, args, kwargs):
        self.cls, self.name, self.args, self.kwargs = cls, cls.__name__, tuple(args), dict(kwargs)
        hs = self.kwargs.get('hs')
        if isinstance(hs, (int, str)):
            hs = L.HSA.LocalSpace(hs)
        self.space = self._hs = hs


def den_raw(r, env):
    h = globals().get('_d_' + r.name)
    if h is None:
        for base, h in BASES:
            if issubclass(r.cls, base):
                return h(r, env)
        raise NoDen(r.name)
    return h(r, env)


BASES = [(L.OA.OperatorSymbol, _opsym), (L.STA.KetSymbol, _ketsym)]


# ---------------------------------------------------------------- comparison

def close(env, x, y, tol=1e-7):
    """equal meanings?  (low corner of infinite ladders)"""
    if isinstance(x, Op) or isinstance(y, Op):
        x, y = [o if isinstance(o, Op) else op_const(o) for o in (x, y)]
        sp = _join(x, y)
        a, b = extend(env, x, sp), extend(env, y, sp)
        k = corner_mask(env, sp)
        a, b = a[np.ix_(k, k)], b[np.ix_(k, k)]
    elif isinstance(x, Sop) or isinstance(y, Sop):
        x, y = [o if isinstance(o, Sop) else Sop((), np.array([[o]], complex)) for o in (x, y)]
        sp = _join(x, y)
        a, b = sop_extend(env, x, sp), sop_extend(env, y, sp)
        k = corner_mask(env, sp)
        k = np.logical_and.outer(k, k).reshape(-1)
        a, b = a[np.ix_(k, k)], b[np.ix_(k, k)]
    elif isinstance(x, Ket) or isinstance(y, Ket):
        x, y = [o if isinstance(o, Ket) else Ket((), np.array([o], complex)) for o in (x, y)]
        if x.spaces is None and y.spaces is None:
            return True
        if x.spaces is None or y.spaces is None:
            z = x if y.spaces is None else y
            return float(np.max(np.abs(z.v[corner_mask(env, z.spaces)]))) <= tol
        if x.bra != y.bra and x.spaces:
            return False
        if set(x.spaces) != set(y.spaces):
            return float(np.max(np.abs(x.v))) <= tol and float(np.max(np.abs(y.v))) <= tol
        k = corner_mask(env, x.spaces)
        a, b = x.v[k], kperm(env, y, x.spaces)[k]
        if x.bra and not y.bra:
            b = b.conj()
        elif y.bra and not x.bra:
            a = a.conj()
    else:
        a, b = np.array([x]), np.array([y])
    s = max(1.0, float(np.max(np.abs(a), initial=0)), float(np.max(np.abs(b), initial=0)))
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        raise NoDen('not finite')
    return bool(np.max(np.abs(a - b), initial=0) <= tol * s)
