"""Normal forms for noncommutative *-polynomials (the algebra back end of pyvc).

An element `P` is a finite sum  coeff * (commutative monomial) * (word of
noncommuting letters)  with Gaussian-rational coefficients.  Commutative atoms
model scalars (symbols, sqrt, exp, Kronecker deltas, inner products, ...),
letters model operators, kets, bras, superoperators or folds of operand
segments.  Two elements with the same normal form are equal in *every* model
(matrices over any Hilbert space) that interprets the atoms and letters; that
is what makes the comparison a proof for all inputs.  Scalar coefficient
identities that need path facts are passed on to z3 (see smt.py).
"""
from fractions import Fraction as F


class CQ:
    """Gaussian rational"""
    __slots__ = ('re', 'im')

    def __init__(self, re=0, im=0):
        self.re = re if isinstance(re, F) else F(re)
        self.im = im if isinstance(im, F) else F(im)

    def __add__(s, o):
        return CQ(s.re + o.re, s.im + o.im)

    def __mul__(s, o):
        return CQ(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)

    def __neg__(s):
        return CQ(-s.re, -s.im)

    def conj(s):
        return CQ(s.re, -s.im)

    def inv(s):
        d = s.re * s.re + s.im * s.im
        return CQ(s.re / d, -s.im / d)

    def __bool__(s):
        return bool(s.re) or bool(s.im)

    def __eq__(s, o):
        return s.re == o.re and s.im == o.im

    def __hash__(s):
        return hash((s.re, s.im))

    def __str__(s):
        if not s.im:
            return str(s.re)
        if not s.re:
            return '%s*i' % s.im
        return '(%s+%s*i)' % (s.re, s.im)


ATOMS = {}     # key -> Atom
LETTERS = {}   # key -> Letter


class Atom:
    """Commutative atom.  kind: var/sqrt/exp/fn/delta/scal/..."""

    def __init__(self, key, kind, args=(), real=False, conj_key=None,
                 integer=False):
        self.key, self.kind, self.args = key, kind, args
        self.real = real or integer
        self.integer = integer
        self.conj_key = conj_key
        self.rebuild = None

    def __repr__(self):
        return self.key


class Letter:
    """Noncommuting letter.  sort: op/ket/bra/sop/circ/seg; support: opaque
    object interpreted by the commutation oracle of the context."""

    def __init__(self, key, sort, support=None, adj_key=None, herm=False,
                 meta=None, base=None, is_adj=False):
        self.key, self.sort, self.support = key, sort, support
        self.adj_key, self.herm, self.meta = adj_key, herm, meta
        self.base = base or key
        self.is_adj = is_adj

    def __repr__(self):
        return self.key


def reset():
    ATOMS.clear()
    LETTERS.clear()


class P:
    __slots__ = ('t', '_key')

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._key = None

    # ---- construction
    @staticmethod
    def const(re, im=0):
        c = CQ(re, im)
        return P({((), ()): c}) if c else P()

    # ---- basic
    def key(self):
        if self._key is None:
            if not self.t:
                self._key = '0'
            else:
                parts = []
                for (m, w), c in sorted(self.t.items(), key=lambda x: (x[0][1], x[0][0])):
                    s = '*'.join(('%s^%d' % a if a[1] != 1 else a[0]) for a in m)
                    ws = '.'.join(w)
                    body = '*'.join(x for x in (s, '[' + ws + ']' if ws else '') if x)
                    cs = str(c)
                    if not body:
                        parts.append(cs)
                    elif cs == '1':
                        parts.append(body)
                    else:
                        parts.append(cs + '*' + body)
                self._key = ' + '.join(parts)
        return self._key

    __str__ = key

    def __repr__(self):
        return 'P<%s>' % self.key()

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def is_zero(self):
        return not self.t

    def is_scalar(self):
        return all(not w for (m, w) in self.t)

    def is_const(self):
        return all(k == ((), ()) for k in self.t)

    def const_value(self):
        return self.t.get(((), ()), CQ(0))

    def __add__(self, o):
        o = lift(o)
        t = dict(self.t)
        for k, c in o.t.items():
            s = t.get(k)
            s = c if s is None else s + c
            if s:
                t[k] = s
            else:
                t.pop(k, None)
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({k: -c for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        res = {}
        for (m1, w1), c1 in self.t.items():
            for (m2, w2), c2 in o.t.items():
                c = c1 * c2
                for (m, extra), cc in mono_mul(m1, m2).items():
                    k = (m, w1 + w2)
                    s = res.get(k)
                    cc = cc * c
                    s = cc if s is None else s + cc
                    if s:
                        res[k] = s
                    else:
                        res.pop(k, None)
        return P(res)

    def __rmul__(self, o):
        return lift(o) * self

    def __pow__(self, n):
        assert isinstance(n, int)
        if n < 0:
            return inverse(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def adj(self):
        res = P()
        for (m, w), c in self.t.items():
            pm = P({((), ()): c.conj()})
            for k, e in m:
                a = conj_atom(k)
                pm = pm * (a ** e if e >= 0 else inverse(a) ** (-e))
            ww = tuple(adj_letter(l) for l in reversed(w))
            res = res + P({(mm, ww): cc for (mm, _), cc in pm.t.items()})
        return res

    conj = adj

    def dual(self):
        """adjoint of a super-operator with respect to the bilinear trace
        form: Tr[A S(B)] = Tr[S'(A) B]; the coefficients stay"""
        return P({}) + sum((P({(m, ()): c}) * P({((), tuple(dual_letter(l) for l in reversed(w))): CQ(1)})
                            for (m, w), c in self.t.items()), P())

    def map_words(self, f):
        """replace every word w by the element f(w)"""
        res = P()
        for (m, w), c in self.t.items():
            res = res + P({(m, ()): c}) * f(w)
        return res

    def subst(self, sub):
        """substitute atom/letter keys by elements"""
        if not sub:
            return self
        res = P()
        for (m, w), c in self.t.items():
            r = P({((), ()): c})
            for k, e in m:
                b = _subst_atom(k, sub)
                r = r * (b ** e if e >= 0 else inverse(b) ** (-e))
            for l in w:
                r = r * _subst_letter(l, sub)
            res = res + r
        return res


def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        raise TypeError('bool in algebra')
    if isinstance(x, int):
        return P.const(x)
    if isinstance(x, F):
        return P.const(x)
    if isinstance(x, float):
        return P.const(F(x))
    if isinstance(x, complex):
        return P.const(F(x.real), F(x.imag))
    raise TypeError('cannot lift %r' % (x,))


ONE = P.const(1)
ZERO = P()
IMAG = P.const(0, 1)


def _atom_P(a, e=1):
    ATOMS.setdefault(a.key, a)
    return P({(((a.key, e),), ()): CQ(1)})


def mono_mul(m1, m2):
    """product of two monomials, as a dict {(mono, ()): CQ}"""
    if not m1:
        return {(m2, ()): CQ(1)}
    if not m2:
        return {(m1, ()): CQ(1)}
    d = dict(m1)
    for k, e in m2:
        d[k] = d.get(k, 0) + e
    special = None
    exp_arg = None
    pows = None
    for k in list(d):
        e = d[k]
        if e == 0:
            del d[k]
            continue
        a = ATOMS[k]
        if a.kind == 'exp':
            exp_arg = (exp_arg or ZERO) + a.args[0] * e
            del d[k]
        elif a.kind == 'sqrt' and (e >= 2 or e <= -1):
            # sqrt(x)^(2q+r) = x^q sqrt(x)^r
            q, r = divmod(e, 2)
            base = a.args[0]
            special = (special or ONE) * (base ** q if q >= 0 else inverse(base) ** (-q))
            if r:
                d[k] = 1
            else:
                del d[k]
        elif a.kind == 'fn' and a.args[0] == 'pow':
            # x^a x^b = x^(a+b) (same base, principal branch)
            pows = pows or {}
            b = a.args[1]
            pows.setdefault(b.key(), [b, ZERO, []])
            pows[b.key()][1] = pows[b.key()][1] + a.args[2] * e
            pows[b.key()][2].append((k, e))
        elif a.kind == 'delta' and e > 1:
            d[k] = 1
        elif a.kind == 'ind' and e > 1:
            d[k] = 1
    if exp_arg is not None and not exp_arg.is_zero():
        a = Atom('exp(%s)' % exp_arg.key(), 'exp', (exp_arg,))
        ATOMS.setdefault(a.key, a)
        d[a.key] = 1
    if pows:
        for b, e, used in pows.values():
            if len(used) == 1 and used[0][1] == 1:
                continue
            for k, _ in used:
                d.pop(k, None)
            special = (special or ONE) * power(b, e)
    base = {(tuple(sorted(d.items())), ()): CQ(1)}
    if special is None:
        return base
    return (P(base) * special).t


# ---- scalar atoms -----------------------------------------------------------

def var(name, real=False, integer=False):
    if real or integer:
        a = Atom(name, 'var', real=real, integer=integer)
    else:
        a = Atom(name, 'var', conj_key=name + '~')
        ATOMS.setdefault(a.conj_key, Atom(a.conj_key, 'var', conj_key=name))
    return _atom_P(a)


def fn(name, *args, real=False, conj=None):
    """opaque function of scalar arguments (args are P or str)"""
    key = '%s(%s)' % (name, ','.join(a.key() if isinstance(a, P) else str(a) for a in args))
    return _atom_P(Atom(key, 'fn', (name,) + tuple(args), real=real, conj_key=conj))


def exp(p):
    p = lift(p)
    if p.is_zero():
        return ONE
    return _atom_P(Atom('exp(%s)' % p.key(), 'exp', (p,)))


def sqrt(p):
    p = lift(p)
    if p.is_zero():
        return ZERO
    if p == ONE:
        return ONE
    if p.is_const():
        c = p.const_value()
        if not c.im and c.re > 0:
            from math import isqrt
            n, d = isqrt(c.re.numerator), isqrt(c.re.denominator)
            if n * n == c.re.numerator and d * d == c.re.denominator:
                return P.const(F(n, d))
    return _atom_P(Atom('sqrt(%s)' % p.key(), 'sqrt', (p,)))


def delta(p, q):
    """Kronecker delta of two (integer-valued) elements or opaque labels"""
    if isinstance(p, P) and isinstance(q, P):
        d = p - q
        if d.is_zero():
            return ONE
        if d.is_const():
            return ZERO
        nd = -d
        k = min(d.key(), nd.key())
        dd = d if d.key() == k else nd
        return _atom_P(Atom('delta(%s)' % k, 'delta', (dd,), real=True))
    raise TypeError('delta')


def power(b, e):
    b, e = lift(b), lift(e)
    if b == ONE:
        return ONE
    if b.is_zero() and not e.is_const():
        return ZERO           # assumed exponent: not zero (0^u is simplified to 0)
    if e.is_const():
        c = e.const_value()
        if not c.im and c.re.denominator == 1 and abs(c.re) <= 12:
            n = int(c.re)
            if n >= 0 and (len(b.t) <= 2 or n <= 4):
                return b ** n
            if n < 0:
                return inverse(b) ** (-n)
        if c == CQ(F(1, 2)):
            return sqrt(b)
        if c == CQ(F(-1, 2)):
            return inverse(sqrt(b))
    c = e.t.get(((), ()))
    if c is not None and not c.im and c.re.denominator == 1 and abs(c.re) <= 6 and len(e.t) > 1:
        # x^(n+r) = x^n x^r
        return power(b, P.const(c.re)) * power(b, e - P.const(c.re))
    if integer_valued(e):
        # (x^y)^n = x^(y n)
        if len(b.t) == 1:
            (m, w), c = next(iter(b.t.items()))
            if c == CQ(1) and not w and len(m) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0]]
                if a.kind == 'fn' and a.args[0] == 'pow':
                    return power(a.args[1], a.args[2] * e)
    return fn('pow', b, e)


def integer_valued(p):
    return all(not c.im and c.re.denominator == 1 and
               not k[1] and all(ATOMS[a].integer and e >= 0 for a, e in k[0]) for k, c in p.t.items())


def inverse(p):
    p = lift(p)
    if p.is_zero():
        return fn('inv', p)
    if len(p.t) == 1:
        ((m, w), c), = p.t.items()
        if not w:
            r = P({(tuple((k, -e) for k, e in m if ATOMS[k].kind not in ('exp', 'sqrt') and not _is_pow(k)), ()): c.inv()})
            for k, e in m:
                a = ATOMS[k]
                if _is_pow(k):
                    r = r * power(a.args[1], -(a.args[2] * e))
                elif a.kind == 'exp':
                    r = r * exp(-(a.args[0] * e))
                elif a.kind == 'sqrt':
                    # 1/sqrt(x) = sqrt(x)/x
                    r = r * (_atom_P(a) * inverse(a.args[0])) ** e
            return r
        if len(w) == 1:
            l = LETTERS[w[0]]
            if l.meta and l.meta.get('inv'):
                return P({((), (l.meta['inv'],)): CQ(1)}) * inverse(P({(m, ()): c}))
    if p.is_scalar():
        a = Atom('poly(%s)' % p.key(), 'poly', (p,))
        return _atom_P(a, -1)
    raise ValueError('cannot invert %s' % p)


def _is_pow(k):
    return ATOMS[k].kind == 'fn' and ATOMS[k].args[0] == 'pow'


def conj_atom(k):
    a = ATOMS[k]
    if a.real:
        return _atom_P(a)
    if a.kind == 'exp':
        return exp(a.args[0].conj())
    if a.kind == 'sqrt':
        c = a.args[0].conj()
        if c == a.args[0]:
            return _atom_P(a)      # assumed non-negative radicand
        return fn('conj_sqrt', a.args[0])
    if a.kind == 'poly':
        return _poly_atom(a.args[0].conj())
    if a.conj_key is not None:
        if a.conj_key not in ATOMS:
            raise KeyError(a.conj_key)
        return _atom_P(ATOMS[a.conj_key])
    if a.kind == 'scal':
        return scal(tuple(adj_letter(l) for l in reversed(a.args[0])))
    if a.kind == 'fn':
        name = a.args[0]
        args = a.args[1:]
        if name == 'conj':
            return args[0]
        if name == 'pow':
            # principal branch; assumed: the base is not on the branch cut
            return power(args[0].conj(), args[1].conj())
        if name in ANALYTIC:
            return fn(name, *[x.conj() if isinstance(x, P) else x for x in args])
        if name == 'bigsum':
            rng, body = args
            return bigsum(rng, body.conj())
        return _conj_fn(a)
    raise ValueError('conj of %s' % k)


ANALYTIC = {'sin', 'cos'}


def _conj_fn(a):
    key = 'conj<%s>' % a.key
    if key not in ATOMS:
        ATOMS[key] = Atom(key, 'fn', ('conj',) + (_atom_P(a),), conj_key=a.key)
    a.conj_key = key
    return _atom_P(ATOMS[key])


def _poly_atom(p):
    return _atom_P(Atom('poly(%s)' % p.key(), 'poly', (p,)))


def _subst_atom(k, sub):
    if k in sub:
        return sub[k]
    a = ATOMS[k]
    if a.conj_key and a.conj_key in sub and a.kind == 'var':
        return sub[a.conj_key].conj()
    if a.rebuild is not None:
        return a.rebuild(sub)
    if a.kind == 'exp':
        return exp(a.args[0].subst(sub))
    if a.kind == 'sqrt':
        return sqrt(a.args[0].subst(sub))
    if a.kind == 'delta':
        d = a.args[0].subst(sub)
        return delta(d, ZERO)
    if a.kind == 'poly':
        p = a.args[0].subst(sub)
        return p
    if a.kind == 'fn':
        args = [x.subst(sub) if isinstance(x, P) else x for x in a.args[1:]]
        if args != list(a.args[1:]):
            if a.args[0] == 'pow':
                return power(*args)
            if a.args[0] == 'bigsum':
                return bigsum(*args)
            if a.args[0] == 'inv':
                return inverse(args[0])
            if a.args[0] == 'conj':
                return args[0].conj()
            return fn(a.args[0], *args, real=a.real)
    if a.kind == 'scal':
        r = ONE
        for l in a.args[0]:
            r = r * _subst_letter(l, sub)
        if r == P({((), tuple(a.args[0])): CQ(1)}):
            return _atom_P(a)
        return r
    return _atom_P(a)


# ---- letters ------------------------------------------------------------------

def letter(name, sort='op', support=None, herm=False, meta=None):
    if name not in LETTERS:
        if herm:
            LETTERS[name] = Letter(name, sort, support, name, True, meta)
        else:
            asort = {'ket': 'bra', 'bra': 'ket'}.get(sort, sort)
            ak = name + "'"
            LETTERS[name] = Letter(name, sort, support, ak, False, meta)
            LETTERS[ak] = Letter(ak, asort, support, name, False, meta,
                                 base=name, is_adj=True)
    return P({((), (name,)): CQ(1)})


def adj_letter(k):
    l = LETTERS[k]
    if l.adj_key is None:
        raise ValueError('no adjoint for %s' % k)
    return l.adj_key


def dual_letter(k):
    l = LETTERS[k]
    if l.meta and l.meta.get('dual'):
        return l.meta['dual']
    if l.adj_key is None:
        raise ValueError('no dual for %s' % k)
    return l.adj_key


def _subst_letter(k, sub):
    if k in sub:
        return sub[k]
    l = LETTERS[k]
    if l.adj_key and l.adj_key in sub:
        return sub[l.adj_key].dual() if l.sort == 'sop' else sub[l.adj_key].adj()
    if l.meta and 'rebuild' in l.meta:
        return l.meta['rebuild'](sub, l)
    return P({((), (k,)): CQ(1)})


# ---- scalars from words ---------------------------------------------------------

COMMUTES = [lambda a, b: False]     # stack of commutation oracles on letter keys


def commutes(a, b):
    return COMMUTES[-1](a, b)


def normal_word(w):
    """lexicographically least word modulo the current commutation oracle"""
    w = list(w)
    out = []
    while w:
        best = None
        for i, l in enumerate(w):
            if all(commutes(l, x) for x in w[:i]):
                if best is None or l < w[best]:
                    best = i
        out.append(w.pop(best))
    return tuple(out)


def _components(w):
    n = len(w)
    par = list(range(n))

    def find(i):
        while par[i] != i:
            i = par[i]
        return i
    for i in range(n):
        for j in range(i):
            if not commutes(w[i], w[j]):
                par[find(i)] = find(j)
    comps = {}
    for i in range(n):
        comps.setdefault(find(i), []).append(w[i])
    return list(comps.values())


def scal(w):
    """scalar atom <bra| ops |ket> (product of its connected components)"""
    w = normal_word(w)
    comps = _components(w) if len(w) > 2 else [w]
    r = ONE
    for c in comps:
        sorts = [LETTERS[l].sort for l in c]
        if sorts[0] == 'bra' and sorts[-1] == 'ket' or len(comps) == 1:
            key = '<%s>' % '|'.join(c)
            r = r * _atom_P(Atom(key, 'scal', (tuple(c),)))
        else:
            key = '<%s>' % '|'.join(w)
            return _atom_P(Atom(key, 'scal', (tuple(w),)))
    return r


def scalarize(p):
    """turn every (bra ... ket) word into a commutative scalar"""
    return p.map_words(lambda w: scal(w) if w else ONE)


def bigsum(rng, body):
    """sum over a symbolic index range (scalar-valued); linear in body"""
    if body.is_zero():
        return ZERO
    return fn('bigsum', rng, body)


def normalize(p):
    return p.map_words(lambda w: P({((), normal_word(w)): CQ(1)}))


def by_word(p):
    res = {}
    for (m, w), c in p.t.items():
        res.setdefault(w, {})[(m, ())] = c
    return {w: P(t) for w, t in res.items()}
