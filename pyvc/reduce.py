"""Word reduction: the textbook algebra of local operators.

Letters carry meta = {'kind': ..., 'ls': key of the local space, 'args': [...]}.
The rules below are the defining relations of the ladder operators, the spin
operators, the number-phase, displacement and projector algebra; they are the
axioms of the verification (listed as trusted in the evidence), and
checks/lemmas verifies those that follow from the action on the basis kets.
"""
from . import nc
from .nc import P, ONE, ZERO, IMAG, LETTERS, ATOMS, lift

I = IMAG


def _mk(key, sort, support, adj_key, meta, asort=None):
    if key not in LETTERS:
        LETTERS[key] = nc.Letter(key, sort, support, adj_key, key == adj_key, meta)
    return P({((), (key,)): nc.CQ(1)})


def _ren(sub, ls, support):
    """two names of the same local space: use one of them"""
    m = sub.get('@ls')
    return m[ls] if m and ls in m else (ls, support)


def basis_ket(ls, support, n, adj=False):
    n = lift(n)
    k = 'K[%s](%s)' % (ls, n.key())
    meta = dict(kind='K', ls=ls, args=[n], support=support)
    meta['rebuild'] = lambda sub, l: basis_ket(*_ren(sub, ls, support), n.subst(sub))
    bmeta = dict(kind='Kb', ls=ls, args=[n], support=support)
    bmeta['rebuild'] = lambda sub, l: basis_ket(*_ren(sub, ls, support), n.subst(sub), adj=True)
    p = _mk(k, 'ket', support, k + "'", meta)
    q = _mk(k + "'", 'bra', support, k, bmeta)
    return q if adj else p


def local_op(kind, ls, support, *args):
    """Create/Destroy/Jz/Jplus/Jminus/Phase/Displace/Squeeze"""
    args = [lift(a) for a in args]
    key = '%s[%s]' % (kind, ls) + ('(%s)' % ','.join(a.key() for a in args) if args else '')
    meta = dict(kind=kind, ls=ls, args=args, support=support)
    meta['rebuild'] = lambda sub, l: local_op(kind, *_ren(sub, ls, support), *[a.subst(sub) for a in args])
    if key not in LETTERS:
        if kind == 'Jz':
            ak = key
        elif kind in ('Create', 'Destroy', 'Jplus', 'Jminus'):
            ak = '%s[%s]' % ({'Create': 'Destroy', 'Destroy': 'Create', 'Jplus': 'Jminus',
                              'Jminus': 'Jplus'}[kind], ls)
        elif kind == 'Phase':
            ak = 'Phase[%s](%s)' % (ls, (-args[0].conj()).key())
        else:
            ak = '%s[%s](%s)' % (kind, ls, (-args[0]).key())
        _mk(key, 'op', support, ak, meta)
        if ak not in LETTERS:
            if kind in ('Create', 'Destroy', 'Jplus', 'Jminus'):
                local_op({'Create': 'Destroy', 'Destroy': 'Create', 'Jplus': 'Jminus',
                          'Jminus': 'Jplus'}[kind], ls, support)
            elif kind == 'Phase':
                local_op('Phase', ls, support, -args[0].conj())
            elif kind in ('Displace', 'Squeeze'):
                local_op(kind, ls, support, -args[0])
    if kind in ('Phase', 'Displace', 'Squeeze') and args[0].is_zero():
        return ONE
    return P({((), (key,)): nc.CQ(1)})


def spin(ls):
    return nc.var('spin[%s]' % ls, real=True)


def jp(ls, n):
    """coefficient of J+ on the basis state with index n (m = n - s)"""
    s = spin(ls)
    m = n - s
    return nc.sqrt(s * (s + 1) - m * (m + 1))


def jm(ls, n):
    s = spin(ls)
    m = n - s
    return nc.sqrt(s * (s + 1) - m * (m - 1))


def _pair(a, b):
    """reduction of the adjacent letters a b (same local space), or None"""
    ma, mb = a.meta, b.meta
    if not ma or not mb or 'kind' not in ma or 'kind' not in mb:
        return None
    if ma.get('ls') != mb.get('ls') or ma.get('ls') is None:
        return None
    ka, kb = ma['kind'], mb['kind']
    ls = ma['ls']
    sup = ma['support']
    op = lambda k, *x: local_op(k, ls, sup, *x)
    if kb == 'K':
        n = mb['args'][0]
        K = lambda i: basis_ket(ls, sup, i)
        if ka == 'Kb':
            return nc.delta(ma['args'][0], n)
        if ka == 'Create':
            return nc.sqrt(n + 1) * K(n + 1)
        if ka == 'Destroy':
            return nc.sqrt(n) * K(n - 1)
        if ka == 'Phase':
            return nc.exp(I * ma['args'][0] * n) * K(n)
        if ka == 'Jz':
            return (n - spin(ls)) * K(n)
        if ka == 'Jplus':
            return jp(ls, n) * K(n + 1)
        if ka == 'Jminus':
            return jm(ls, n) * K(n - 1)
        return None
    if ka == 'Kb':
        n = ma['args'][0]
        K = lambda i: basis_ket(ls, sup, i, adj=True)
        if kb == 'Create':
            return nc.sqrt(n) * K(n - 1)
        if kb == 'Destroy':
            return nc.sqrt(n + 1) * K(n + 1)
        if kb == 'Phase':
            return nc.exp(I * mb['args'][0] * n) * K(n)
        if kb == 'Jz':
            return (n - spin(ls)) * K(n)
        if kb == 'Jplus':
            return jm(ls, n) * K(n - 1)
        if kb == 'Jminus':
            return jp(ls, n) * K(n + 1)
        return None
    if ka == 'Destroy' and kb == 'Create':
        return op('Create') * op('Destroy') + 1
    if ka == 'Jminus' and kb == 'Jplus':
        return op('Jplus') * op('Jminus') - 2 * op('Jz')
    if ka == 'Jminus' and kb == 'Jz':
        return op('Jz') * op('Jminus') + op('Jminus')
    if ka == 'Jz' and kb == 'Jplus':
        return op('Jplus') * op('Jz') + op('Jplus')
    if ka == 'Phase' and kb == 'Phase':
        return op('Phase', ma['args'][0] + mb['args'][0])
    if ka == 'Displace' and kb == 'Displace':
        u, v = ma['args'][0], mb['args'][0]
        return nc.exp((u * v.conj() - u.conj() * v) * nc.P.const(nc.F(1, 2))) * op('Displace', u + v)
    if ka == 'Destroy' and kb == 'Phase':
        u = mb['args'][0]
        return nc.exp(I * u) * op('Phase', u) * op('Destroy')
    if ka == 'Phase' and kb == 'Create':
        u = ma['args'][0]
        return nc.exp(I * u) * op('Create') * op('Phase', u)
    if ka == 'Destroy' and kb == 'Displace':
        u = mb['args'][0]
        return op('Displace', u) * (op('Destroy') + u)
    if ka == 'Displace' and kb == 'Create':
        u = ma['args'][0]
        return (op('Create') - u.conj()) * op('Displace', u)
    if ka == 'Phase' and kb == 'Displace':
        u, v = ma['args'][0], mb['args'][0]
        return op('Displace', v * nc.exp(I * u)) * op('Phase', u)
    if ka == 'Squeeze' and kb == 'Squeeze' and (ma['args'][0] + mb['args'][0]).is_zero():
        return ONE
    return None


def word_letter(k):
    return P({((), (k,)): nc.CQ(1)})


def word(w):
    return P({((), tuple(w)): nc.CQ(1)})


class Reducer:
    """normal form of an element w.r.t. a commutation oracle and path facts"""

    def __init__(self, commutes, extra_pair=None, subset=None, unit=None, post=None, scal_hook=None):
        self.scal_hook = scal_hook
        self.commutes = commutes
        self.extra_pair = extra_pair
        self.subset = subset
        self.post = post
        self.cache = {}

    def pair(self, a, b):
        la, lb = LETTERS[a], LETTERS[b]
        if la.sort == 'bra' and lb.sort == 'ket' and la.adj_key == b and lb.meta and lb.meta.get('unit'):
            return ONE
        r = _pair(la, lb)
        if r is None and self.extra_pair:
            r = self.extra_pair(la, lb)
        return r

    def adjacent(self, w, i, j):
        """can w[i] and w[j] be brought together? returns split or None"""
        mid = w[i + 1:j]
        if not mid:
            return ((), ())
        if all(self.commutes(w[i], x) for x in mid):
            return (tuple(mid), ())
        if all(self.commutes(x, w[j]) for x in mid):
            return ((), tuple(mid))
        return None

    def word(self, w, depth=0):
        if w in self.cache:
            return self.cache[w]
        res = None
        n = len(w)
        for i in range(n):
            for j in range(i + 1, n):
                if LETTERS[w[i]].meta is None and LETTERS[w[j]].meta is None and \
                        not (LETTERS[w[i]].sort == 'bra') and not self.extra_pair:
                    continue
                r = self.pair(w[i], w[j])
                if r is None:
                    continue
                sp = self.adjacent(w, i, j)
                if sp is None:
                    continue
                pre, post = sp
                e = word(w[:i] + pre) * r * word(post + w[j + 1:])
                res = self.reduce(e, depth + 1)
                break
            if res is not None:
                break
        if res is None:
            # extract scalars  bra ops ket  (supports agree)
            for i in range(n):
                if LETTERS[w[i]].sort != 'bra':
                    continue
                for j in range(i + 1, n):
                    if LETTERS[w[j]].sort == 'bra':
                        break
                    if LETTERS[w[j]].sort == 'ket':
                        if self.closed(w, i, j):
                            inner = nc.normal_word(w[i:j + 1])
                            sc = self.scal_hook(inner) if self.scal_hook else None
                            if sc is None:
                                sc = nc._atom_P(nc.Atom('<%s>' % '|'.join(inner), 'scal', (inner,)))
                            res = sc * self.reduce(word(w[:i] + w[j + 1:]), depth + 1)
                        break
                if res is not None:
                    break
        if res is None:
            res = word(nc.normal_word(w))
        self.cache[w] = res
        return res

    def closed(self, w, i, j):
        if self.subset is None:
            return False
        a, b = LETTERS[w[i]].support, LETTERS[w[j]].support
        if a is None or b is None:
            return False
        if not (self.subset(a, b) and self.subset(b, a)):
            return False
        return all(LETTERS[x].support is not None and self.subset(LETTERS[x].support, a) for x in w[i + 1:j])

    def reduce(self, p, depth=0):
        if depth > 200:
            raise RecursionError('reduction depth')
        out = ZERO
        nc.COMMUTES.append(self.commutes)
        try:
            for (m, w), c in p.t.items():
                out = out + P({(m, ()): c}) * (self.word(w, depth) if w else ONE)
        finally:
            nc.COMMUTES.pop()
        return out


def delta_normal(p):
    """use delta(d)*f = delta(d)*f[d=0] to normalise"""
    for _ in range(8):
        out = ZERO
        changed = False
        for (m, w), c in p.t.items():
            term = P({(m, w): c})
            for k, e in m:
                a = ATOMS[k]
                if a.kind != 'delta':
                    continue
                d = a.args[0]
                # choose a variable with unit coefficient
                best = None
                for (mm, ww), cc in d.t.items():
                    if len(mm) == 1 and mm[0][1] == 1 and not ww and cc in (nc.CQ(1), nc.CQ(-1)):
                        kk = mm[0][0]
                        others = P({x: y for x, y in d.t.items() if x != (mm, ww)})
                        if ATOMS[kk].kind in ('var', 'fn') and (best is None or kk > best[0]):
                            if kk not in others.key():
                                best = (kk, (-others) * (1 if cc == nc.CQ(1) else -1))
                if best is None:
                    continue
                rest = P({(tuple(x for x in m if x[0] != k), w): c})
                r2 = rest.subst({best[0]: best[1]})
                if r2 != rest:
                    term = nc._atom_P(a) * r2
                    changed = True
                    break
            out = out + term
        p = out
        if not changed:
            return p
    return p
