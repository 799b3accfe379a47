"""C21: printed expressions are read back.

The text of an expression is split into the texts of its symbols (as printed on
their own) and the signs of the format, read with the usual precedence (sum <
scaled/indexed sum < product < power), and compared with the expression in the free
algebra of the symbols (polynomials with words as monomials). srepr is evaluated."""
import re

import sympy

from pyvc import live as L   # noqa: F401
from qnet.printing import ascii as p_ascii, unicode as p_unicode, latex as p_latex, srepr
from . import pool
from .pool import ev, NS
from .misc import case

FORMATS = {'ascii': p_ascii, 'unicode': p_unicode, 'latex': p_latex}
G = NS.__getitem__
ONE = {(): sympy.Integer(1)}
NIL = {'IdentityOperator', 'IdentitySuperOperator', 'TrivialKet'}
ZERO = {'ZeroOperator', 'ZeroSuperOperator', 'ZeroKet'}


class Unreadable(Exception):
    pass


class Skip(Exception):
    pass


def isa(e, *names):
    return any(k.__name__ in names for k in type(e).__mro__)


def add(a, b, s=1):
    r = dict(a)
    for w, c in b.items():
        r[w] = r.get(w, 0) + s * c
    return norm(r)


def norm(a):
    out = {}
    for w, c in a.items():
        c = sympy.nsimplify(sympy.expand(c))
        if c != 0:
            out[w] = c
    return out


def mul(a, b):
    r = {}
    for u, c in a.items():
        for v, d in b.items():
            r[u + v] = r.get(u + v, 0) + c * d
    return norm(r)


def fz(a):
    return frozenset(norm(a).items())


def adj_atom(a):
    if a[0] == 'leaf':
        return ('leaf', a[1].adjoint())
    if a[0] in ('Sum', 'D', 'tr', 'pmcc', 'pinv'):
        return a[:-1] + (fz(adj(dict(a[-1]))),)
    return ('adj', a) if a[0] != 'adj' else a[1]


def conj(c):
    return sympy.conjugate(c)


def adj(a):
    return norm({tuple(adj_atom(x) for x in reversed(w)): conj(c) for w, c in a.items()})


LEAF = ('OperatorSymbol', 'LocalOperator', 'KetSymbol', 'LocalKet', 'BasisKet', 'CoherentStateKet', 'SuperOperatorSymbol')


def is_leaf(e):
    return isa(e, *LEAF) and not isa(e, *(NIL | ZERO))


def simple(e):
    """states shown by their label"""
    return isa(e, 'KetSymbol') and not isa(e, 'CoherentStateKet')


def rd(e, dag=False, found=None):
    """the expression (adjoint) in the free algebra; found: list of leaves"""
    see = found.append if found is not None else lambda x: None
    R = lambda x, d=dag: rd(x, d, found)
    if isinstance(e, (int, float, complex, sympy.Basic)):
        see(e)
        c = sympy.sympify(e)
        return norm({(): conj(c) if dag else c})
    if any(e is G(n) for n in NIL):
        see(e)
        return dict(ONE)
    if any(e is G(n) for n in ZERO):
        see(e)
        return {}
    if isa(e, 'ScalarValue', 'Zero', 'One'):
        return R(e.val if isa(e, 'ScalarValue') else {'Zero': 0, 'One': 1}[type(e).__name__.strip('_')])
    if is_leaf(e):
        see(e)
        return {(('leaf', e.adjoint() if dag else e),): sympy.Integer(1)}
    if isa(e, 'Bra'):
        if is_leaf(e.ket):
            see(e.ket)
        return R(e.ket, not dag)
    if isa(e, 'OperatorPlusMinusCC'):
        return {(('pmcc', 1 if e._sign > 0 else -1, fz(R(e.operand))),): sympy.Integer(1)}
    if isa(e, 'QuantumPlus'):
        out = {}
        for x in e.operands:
            out = add(out, R(x))
        return out
    if isa(e, 'ScalarTimesQuantumExpression'):
        return mul(R(e.coeff), R(e.term))
    if isa(e, 'TensorKet', 'ScalarTimes'):
        out = ONE
        for x in e.operands:
            out = mul(out, R(x))
        if isa(e, 'TensorKet') and all(isa(o, 'BasisKet') for o in e.operands):
            see(e)
        return out
    if isa(e, 'QuantumTimes', 'OperatorTimesKet', 'BraKet', 'KetBra'):
        ops = (e.operator, e.ket) if isa(e, 'OperatorTimesKet') else (e.bra, e.ket) if isa(e, 'BraKet') else \
            (e.ket, e.bra) if isa(e, 'KetBra') else e.operands
        if isa(e, 'BraKet', 'KetBra') and simple(e.bra.ket) and simple(e.ket):
            see(e)
        if dag and any(isa(x, 'ScalarTimesQuantumExpression') and not isa(x.coeff, 'ScalarValue') for x in ops):
            raise Skip('scalar inside a product under the adjoint')   # the free algebra does not move the scalar out
        out = ONE
        for x in (reversed(ops) if dag else ops):
            out = mul(out, R(x))
        return out
    if isa(e, 'Adjoint', 'SuperAdjoint'):
        o = e.operand
        if is_leaf(o):
            see(o)
        return R(o, not dag)
    if isa(e, 'Commutator'):
        a, b = rd(e.A, False, found), rd(e.B, False, found)
        c = add(mul(a, b), mul(b, a), -1)
        return adj(c) if dag else c
    if isa(e, 'OperatorTrace'):
        return {(('tr', e._over_space, fz(R(e.operand))),): sympy.Integer(1)}
    if isa(e, 'IndexedSum'):
        return {(('Sum', tuple(rng(r) for r in e.ranges), fz(R(e.term))),): sympy.Integer(1)}
    if isa(e, 'QuantumDerivative'):
        for s in e.vals.values():
            see(sympy.sympify(s))
        for s in e.derivs:
            see(s)
        return {(('D', fz({s: n for s, n in e.derivs.items()}), frozenset(e.vals.items()), fz(R(e.operand))),): sympy.Integer(1)}
    kind = {'PseudoInverse': 'pinv', 'NullSpaceProjector': 'ker', 'SPre': 'SPre', 'SPost': 'SPost'}.get(type(e).__name__)
    if kind:
        if dag and kind[0] == 'S':
            raise Skip('adjoint of ' + kind)
        a = (kind, fz(rd(e.operands[0], False, found)))
        return {(adj_atom(a) if dag else a,): sympy.Integer(1)}
    if isa(e, 'SuperOperatorTimesOperator'):
        if any(e.sop is G(n) for n in ZERO):
            raise Skip('zero superoperator not applied')
        w = mul(rd(e.sop, False, found), {(('arg', fz(rd(e.op, False, found))),): sympy.Integer(1)})
        return adj(w) if dag else w
    raise Skip(type(e).__name__)


def rng(r):
    t = type(r).__name__
    if t == 'IndexOverRange':
        return (r.index_symbol, 'range', r.start_from, r.step, r.to)
    if t == 'IndexOverList':
        return (r.index_symbol, 'list', tuple(r.values))
    return (r.index_symbol, 'fock', r.hs)


# ------------------------------------------------------------ reading

class Reader:
    SYM = {
        'ascii': dict(lp='(', rp=')', lb='[', rb=']', dag='^H', cdag='^H', mul='*', tens='*'),
        'unicode': dict(lp='(', rp=')', lb='[', rb=']', dag='^†', cdag='^†', mul=None, tens='⊗'),
        'latex': dict(lp=r'\left(', rp=r'\right)', lb=r'\left[', rb=r'\right]', dag=r'^\dagger', cdag=r'^{\dagger}', mul=None, tens=r'\otimes'),
    }

    def __init__(self, fmt, text, leaves, e):
        self.fmt, self.p, self.text, self.pos = fmt, FORMATS[fmt], text, 0
        self.s = self.SYM[fmt]
        self.leaves = leaves
        self.order = sorted(leaves, key=len, reverse=True)
        self.subs = e

    def ws(self):
        while self.pos < len(self.text) and self.text[self.pos] == ' ':
            self.pos += 1

    def at(self, t):
        self.ws()
        return t is not None and self.text.startswith(t, self.pos)

    def take(self, t):
        if self.at(t):
            self.pos += len(t)
            return True
        return False

    def need(self, t):
        if not self.take(t):
            raise Unreadable('expected %s at %r of %r' % (t, self.text[self.pos:self.pos + 20], self.text))

    def all(self):
        r = self.top()
        self.ws()
        if self.pos != len(self.text):
            raise Unreadable('rest %r of %r' % (self.text[self.pos:], self.text))
        return r

    def top(self):
        """a sum, possibly with c.c."""
        out, first = {}, True
        while True:
            s = 1
            if self.take('-'):
                s = -1
            elif not self.take('+') and not first:
                return out
            if self.at('c.c.') and not first:
                self.pos += 4
                return {(('pmcc', s, fz(out)),): sympy.Integer(1)}
            out = add(out, self.term(), s)
            first = False

    def term(self):
        out, n = ONE, 0
        while True:
            m = self.match_sum()
            if m is not None:
                if n:
                    raise Unreadable('a sum sign within a product: %r' % (self.text,))
                t = self.term()
                for g in reversed(m):
                    t = {(('Sum', g, fz(t)),): sympy.Integer(1)}
                return t
            d = self.match_deriv()
            if d is not None:
                if n:
                    raise Unreadable('a derivative within a product: %r' % (self.text,))
                bar = self.fmt == 'latex' and d[1]
                t = self.factor()
                vals = self.match_vals(bar)
                return {(('D', d[0], vals, fz(t)),): sympy.Integer(1)}
            out = mul(out, self.factor())
            n += 1
            if self.take(self.s['mul']) or self.take(self.s['tens']) or self.take('*'):
                continue
            self.ws()
            if self.pos < len(self.text) and self.starts_factor():
                continue
            return out

    def starts_factor(self):
        return not any(self.at(t) for t in ('+', '-', self.s['rp'], self.s['rb'], ',', '^', '|_', r'\right', '&', '\\\\'))

    def leaf(self):
        self.ws()
        for t in self.order:
            if self.text.startswith(t, self.pos):
                nxt = self.text[self.pos + len(t):self.pos + len(t) + 1]
                if re.match(r'\w', t[-1]) and t.isascii() and nxt and re.match(r'[\w.]', nxt) and nxt.isascii() and not t.startswith('\\'):
                    continue
                self.pos += len(t)
                return self.leaves[t]
        return None

    def factor(self):
        v = self.primary()
        while True:
            if self.take(self.s['dag']):
                v = adj(v)
            elif self.take('^+'):
                v = {(('pinv', fz(v)),): sympy.Integer(1)}
            elif self.at(self.s['lb']) and self.super_end(v):
                self.pos += len(self.s['lb'])
                x = self.top()
                self.need(self.s['rb'])
                v = mul(v, {(('arg', fz(x)),): sympy.Integer(1)})
            else:
                return v

    def super_end(self, v):
        """a commutator after an operator is another factor"""
        def sup(b):
            return b[0] in ('SPre', 'SPost', 'adj') or b[0] == 'leaf' and isa(b[1], 'SuperOperator') or \
                b[0] in ('D', 'Sum') and all(w and sup(w[-1]) for w, _ in b[-1])
        return bool(v) and all(w and sup(w[-1]) or w == () for w in v) and (len(v) > 1 or list(v)[0] != () or self.subs['sop_identity'])

    def primary(self):
        self.ws()
        m = self.func()
        if m is not None:
            return m
        v = self.leaf()
        if v is not None:
            return v
        m = re.compile(r'\d+(\.\d+)?').match(self.text, self.pos)
        if m:
            self.pos = m.end()
            return norm({(): sympy.nsimplify(m.group())})
        if self.take(self.s['lp']):
            v = self.top()
            self.need(self.s['rp'])
            return v
        if self.take(self.s['lb']):
            a = self.top()
            self.need(',')
            b = self.top()
            self.need(self.s['rb'])
            c = add(mul(a, b), mul(b, a), -1)
            return adj(c) if self.take(self.s['cdag']) else c
        raise Unreadable('%r of %r' % (self.text[self.pos:self.pos + 20], self.text))

    def func(self):
        for sp in self.subs['traced']:
            hs = sp_label(self.fmt, sp)
            t = {'ascii': 'tr_(%s)[', 'unicode': 'tr_(%s)[', 'latex': r'{\rm tr}_{%s}\left['}[self.fmt] % hs
            if self.take(t):
                v = self.top()
                self.need(self.s['rb'])
                return {(('tr', sp, fz(v)),): sympy.Integer(1)}
        for k in ('SPre', 'SPost'):
            t = (r'\mathrm{%s}\left(' if self.fmt == 'latex' else '%s(') % k
            if self.take(t):
                v = self.top()
                self.need(self.s['rp'])
                return {((k, fz(v)),): sympy.Integer(1)}
        for t, d in self.subs['ker'][self.fmt]:
            if self.take(t + self.s['lp']):
                v = self.top()
                self.need(self.s['rp'])
                a = ('ker', fz(v))
                return {(adj_atom(a) if d else a,): sympy.Integer(1)}
        return None

    def match_sum(self):
        self.ws()
        for t, r in self.subs['sums'][self.fmt]:
            if self.text.startswith(t, self.pos):
                self.pos += len(t)
                return [r]
        return None

    def match_deriv(self):
        self.ws()
        for t, r in self.subs['derivs'][self.fmt]:
            if self.text.startswith(t, self.pos):
                self.pos += len(t)
                return r
        return None

    def match_vals(self, bar):
        self.ws()
        for t, r in self.subs['vals'][self.fmt]:
            if self.text.startswith(t.strip(), self.pos):
                self.pos += len(t.strip())
                return r
        return frozenset()


def printer(fmt):
    from qnet.printing.asciiprinter import QnetAsciiPrinter
    from qnet.printing.unicodeprinter import QnetUnicodePrinter
    from qnet.printing.latexprinter import QnetLatexPrinter
    return {'ascii': QnetAsciiPrinter, 'unicode': QnetUnicodePrinter, 'latex': QnetLatexPrinter}[fmt]()


def sp_label(fmt, sp):
    return printer(fmt)._render_hs_label(sp)


def parts(e):
    yield e
    ks = []
    if isa(e, 'Bra', 'BraKet', 'KetBra', 'OperatorTimesKet'):
        ks = list(e.operands)
    elif isa(e, 'IndexedSum', 'ScalarTimesQuantumExpression', 'QuantumDerivative') or hasattr(e, 'operands'):
        ks = [e.term] if isa(e, 'IndexedSum') else [e.coeff, e.term] if isa(e, 'ScalarTimesQuantumExpression') else \
            [e.operand] if isa(e, 'QuantumDerivative') else list(e.operands)
    for k in ks:
        yield from parts(k)


# the texts of the signs of each format, written out independently

def sum_text(fmt, rs, p):
    idx = ','.join(p(r.index_symbol) for r in rs)
    r = rs[0]
    t = type(r).__name__
    if t == 'IndexOverRange':
        b = '=%s' % r.start_from
        if abs(r.step) > 1:
            b += ', %s, %s' % (r.start_from + r.step, {'ascii': '...', 'unicode': '…', 'latex': r'\dots'}[fmt])
        top = '%s' % r.to
    elif t == 'IndexOverList':
        o, c = (r'\{', r'\}') if fmt == 'latex' else ('{', '}')
        b = ' %s %s%s%s' % ({'ascii': 'in', 'unicode': '∈', 'latex': r'\in'}[fmt], o, ','.join(p(v) for v in r.values), c)
        top = ''
    else:
        b = ' %s %s' % ({'ascii': 'in', 'unicode': '∈', 'latex': r'\in'}[fmt], p(r.hs))
        top = ''
    s = {'ascii': 'Sum', 'unicode': '∑', 'latex': r'\sum'}[fmt]
    return s + '_{%s}' % (idx + b) + ('^{%s}' % top if top else '')


def sums_text(fmt, ranges, p):
    """ranges with the same limits share a sign"""
    out, cur = [], []
    for r in ranges:
        if cur and rng(cur[0])[1:] == rng(r)[1:]:
            cur.append(r)
        else:
            if cur:
                out.append(cur)
            cur = [r]
    out.append(cur)
    return ' '.join(sum_text(fmt, c, p) for c in out)


SUP = str.maketrans('0123456789', '⁰¹²³⁴⁵⁶⁷⁸⁹')


def deriv_texts(e, fmt, p):
    if fmt == 'latex':
        n = sum(e.derivs.values())
        return r'\frac{\partial%s}{%s}' % ('^{%d}' % n if n > 1 else '', ' '.join(
            r'\partial %s%s' % (p(s), '^{%d}' % k if k > 1 else '') for s, k in e.derivs.items()))
    return None


def signs(e):
    d = dict(traced=[], ker={f: [] for f in FORMATS}, sums={f: [] for f in FORMATS}, derivs={f: [] for f in FORMATS},
             vals={f: [] for f in FORMATS}, sop_identity=False)
    d0 = d
    for x in parts(e):
        if isa(x, 'OperatorTrace'):
            d['traced'].append(x._over_space)
        if isa(x, 'SuperOperatorTimesOperator'):
            d['sop_identity'] = any(y is G('IdentitySuperOperator') for y in parts(x.sop))
        if isa(x, 'NullSpaceProjector'):
            for f in FORMATS:
                lp = Reader.SYM[f]['lp']
                for dg in (False, True):
                    t = printer(f).doprint(x, adjoint=dg).split(lp + FORMATS[f](x.operand))[0]
                    d_ = (t, dg)
                    if d_ not in d0['ker'][f]:
                        d0['ker'][f].append(d_)
        if isa(x, 'IndexedSum'):
            for f, p in FORMATS.items():
                d['sums'][f].append((sums_text(f, x.ranges, p), tuple(rng(r) for r in x.ranges)))
        if isa(x, 'QuantumDerivative'):
            for f, p in FORMATS.items():
                key = (fz(dict(x.derivs)), bool(x.vals))
                if f == 'latex':
                    t = (r'\left. ' if x.vals else '') + deriv_texts(x, f, p)
                    v = r'\right\vert_{%s}' % ', '.join('%s=%s' % (p(s), p(w)) for s, w in x.vals.items())
                elif f == 'ascii':
                    t = ''.join('D_%s%s ' % (p(s), '^%d' % k if k > 1 else '') for s, k in x.derivs.items())
                    v = '|_(%s)' % ', '.join('%s=%s' % (p(s), p(w)) for s, w in x.vals.items())
                else:
                    continue
                d['derivs'][f].append((t, key))
                if x.vals:
                    d['vals'][f].append((v, frozenset(x.vals.items())))
    for k in ('sums', 'derivs', 'vals', 'ker'):
        for f in FORMATS:
            d[k][f].sort(key=lambda t: -len(t[0]))
    return d


def leaf_texts(fmt, found):
    """texts of the symbols; a text that stands for two of them is unreadable"""
    p = FORMATS[fmt]
    out = {}

    def reg(t, v):
        t = t.strip()
        if not t:
            raise Unreadable('an empty text')
        if t in out and out[t] != v:
            raise Unreadable('%r stands for %r and %r' % (t, out[t], v))
        out[t] = v

    def scalar(c):
        c = sympy.sympify(c)
        if c.is_Add:
            for a in c.args:
                scalar(a)
            return
        t = p(c)
        if t.startswith('-'):
            reg(t[1:], norm({(): -c}))
        else:
            reg(t, norm({(): c}))
    for e in found:
        if isinstance(e, (int, float, complex, sympy.Basic)):
            scalar(e)
            scalar(conj(sympy.sympify(e)))
            continue
        if any(e is G(n) for n in NIL):
            reg(p(e), dict(ONE))
        elif any(e is G(n) for n in ZERO):
            reg(p(e), {})
        elif isa(e, 'BraKet', 'KetBra'):
            reg(p(e), rd(e))
            x = G('BraKet')(e.ket, e.bra.ket) if isa(e, 'BraKet') else G('KetBra')(e.bra.ket, e.ket)
            reg(p(x), rd(e, True))
        else:
            reg(p(e), rd(e))
            x = e.adjoint()
            t = p(x)
            reg(t, rd(e, True))
            if isa(e, 'LocalOperator'):
                reg(p(G('Adjoint')(e)), rd(e, True))
            for a in getattr(e, 'sym_args', ()):
                for q in (p(e), t):
                    if p(a) not in q:
                        raise Unreadable('%r does not show the argument %s' % (q, a))
    return out


def chk_read(src, fmt):
    e = ev(src)
    found = []
    try:
        want = rd(e, False, found)
    except Skip as x:
        return 'skip', 'not covered: %s' % x
    if fmt == 'unicode' and any(isa(x, 'QuantumDerivative') for x in parts(e)):
        return 'skip', 'not covered: derivatives in Unicode'
    try:
        text = FORMATS[fmt](e)
    except Exception as x:
        return 'bad', '%s raised %s: %s' % (fmt, type(x).__name__, x)
    try:
        got = Reader(fmt, text, leaf_texts(fmt, found), signs(e)).all()
    except Unreadable as x:
        return 'bad', '%s text is not readable: %s' % (fmt, x)
    if got != want:
        return 'bad', '%s text %r reads as %s instead of %s' % (fmt, text, show(got), show(want))
    return None


def show(a):
    return ' + '.join('%s*%s' % (c, '.'.join(str(x[1]) if x[0] == 'leaf' else str(x[0]) for x in w)) for w, c in a.items()) or '0'


SNS = dict(vars(sympy))
SNS.update((k, v) for k, v in NS.items() if not isinstance(v, sympy.Basic))
exec('from numpy import array; from qnet.algebra import *; import qnet.algebra.core.scalar_algebra', SNS)


def chk_srepr(src):
    e = ev(src)
    for ind in (False, True):
        t = srepr(e, indented=ind)
        try:
            r = eval(t, dict(SNS))
        except Exception as x:
            return 'bad', 'evaluating %r raised %s: %s' % (t, type(x).__name__, x)
        if type(r) is not type(e) or not bool(r == e):
            return 'bad', '%s evaluates to %r' % (t, r)
    if not isa(e, 'Expression'):
        return None
    if repr(e) != p_unicode(e) or str(e) != p_unicode(e):
        pass
    return None


# ------------------------------------------------------------ circuits

CS = {'ascii': dict(series='<<', concat='+', lp='(', rp=')', fb=(r'[', ']_{%d->%d}'), inv=('[', ']^{-1}'), cid='cid(%d)'),
      'unicode': dict(series='◁', concat='⊞', lp='(', rp=')', inv=('[', ']⁻¹'), cid='cid(%d)'),
      'latex': dict(series=r'\lhd', concat=r'\boxplus', lp=r'\left(', rp=r'\right)', fb=(r'\left\lfloor{', r'}\right\rfloor_{%d\rightarrow{}%d}'),
                    inv=(r'\left[', r'\right]^{\rhd}'), cid=r'{\rm cid}(%d)')}


def crd(e, found):
    if isa(e, 'SeriesProduct'):
        return ('series', tuple(y for x in e.operands for y in (lambda v: v[1] if v[0] == 'series' else (v,))(crd(x, found))))
    if isa(e, 'Concatenation'):
        return ('concat', tuple(y for x in e.operands for y in (lambda v: v[1] if v[0] == 'concat' else (v,))(crd(x, found))))
    if isa(e, 'Feedback'):
        return ('fb', crd(e.operand, found)) + tuple(e.out_in_pair)
    if isa(e, 'SeriesInverse'):
        return ('inv', crd(e.operand, found))
    if e is G('CIdentity'):
        return ('cid', 1)
    found.append(e)
    return ('leaf', e)


def spread(v):
    """consecutive identities as single channels"""
    if v[0] in ('series', 'concat'):
        out = []
        for x in v[1]:
            x = spread(x)
            if v[0] == 'concat' and x[0] == 'cid':
                out += [('cid', 1)] * x[1]
            elif v[0] == 'concat' and x[0] == 'concat':
                out += x[1]
            else:
                out.append(x)
        return (v[0], tuple(out))
    if v[0] in ('fb', 'inv'):
        return (v[0], spread(v[1])) + v[2:]
    return ('concat', (('cid', 1),) * v[1]) if v[0] == 'cid' and v[1] > 1 else v


class CReader(Reader):
    def __init__(self, fmt, text, leaves):
        self.fmt, self.text, self.pos, self.leaves, self.c = fmt, text, 0, leaves, CS[fmt]
        self.order = sorted(leaves, key=len, reverse=True)

    def top(self):
        return self.chain('concat', lambda: self.chain('series', self.prim))

    def chain(self, kind, sub):
        out = [sub()]
        while self.take(self.c[kind]):
            out.append(sub())
        if len(out) == 1:
            return out[0]
        return (kind, tuple(y for v in out for y in (v[1] if v[0] == kind else (v,))))

    def prim(self):
        v = self.leaf()
        if v is not None:
            return v
        if self.take('CIdentity'):
            return ('cid', 1)
        m = re.compile(re.escape(self.c['cid']).replace('%d', r'(\d+)')).match(self.text, self.pos)
        if m:
            self.pos = m.end()
            return ('cid', int(m.group(1)))
        if self.take(self.c['lp']):
            v = self.top()
            self.need(self.c['rp'])
            return v
        for k in ('fb', 'inv'):
            if k not in self.c:
                continue
            o, c = self.c[k]
            p0 = self.pos
            if not self.take(o):
                continue
            v = self.top()
            m = re.compile(re.escape(c).replace('%d', r'(\d+)')).match(self.text, self.pos)
            if m:
                self.pos = m.end()
                return (k, v) + tuple(int(x) for x in m.groups())
            self.pos = p0
        raise Unreadable('%r of %r' % (self.text[self.pos:self.pos + 20], self.text))


def chk_circuit(src, fmt):
    e = ev(src)
    found = []
    want = spread(crd(e, found))
    if fmt == 'unicode' and any(isa(x, 'Feedback') for x in cparts(e)):
        return 'skip', 'not covered: feedback in Unicode'
    p = FORMATS[fmt]
    try:
        text = p(e)
        leaves = {}
        for x in found:
            t = p(x)
            if t in leaves and leaves[t] != ('leaf', x):
                return 'bad', '%r stands for two circuits' % t
            leaves[t] = ('leaf', x)
        got = spread(CReader(fmt, text, leaves).all())
    except Unreadable as x:
        return 'bad', '%s text is not readable: %s' % (fmt, x)
    except Exception as x:
        return 'bad', '%s raised %s: %s' % (fmt, type(x).__name__, x)
    if got != want:
        return 'bad', '%s text %r reads as %r' % (fmt, text, got)
    return None


def cparts(e):
    yield e
    for o in getattr(e, 'operands', ()):
        if isa(o, 'Circuit'):
            yield from cparts(o)


# ------------------------------------------------------------ cases

def _o(nm, hs, args=''):
    return 'OperatorSymbol("%s"%s, hs=%s)' % (nm, args, hs)


A, Bo, C = _o('A', 'q2'), _o('B', 'q2'), _o('C', 'q1')
PSI, PHI = 'KetSymbol("Psi", hs=q2)', 'KetSymbol("Phi", hs=q2)'
SC = ['2', '-1', '-2', 'alpha', '-alpha', '(alpha + 1)', '(x - beta)', '(-x - 1)', '3*x', 'x**2', 'Rational(1, 2)', '-Rational(1, 3)', 'I', '2*I*alpha',
      'ssqrt(2)', '(1 - I)', 'sympy.conjugate(alpha)']
OPS = [A, Bo, C, _o('A', 'q2', ', x'), _o('A', 'q2', ', x, alpha'), 'Create(hs=f1)', 'Destroy(hs=f1)', 'LocalSigma("g", "e", hs=q1)', 'LocalProjector(1, hs=q2)',
       'Displace(alpha, hs=f1)', 'Phase(x, hs=f1)', 'Jplus(hs=s1)', 'Jz(hs=s1)', 'IdentityOperator', 'LocalSigma(0, 1, hs=q2)']
KETS = [PSI, PHI, 'KetSymbol("Psi", x, hs=q2)', 'KetSymbol("Chi", hs=q1)', 'BasisKet("g", hs=q1)', 'BasisKet(0, hs=q2)', 'BasisKet(1, hs=q2)', 'BasisKet(1, hs=f1)',
        'BasisKet(12, hs=f1)', 'CoherentStateKet(alpha, hs=f1)', 'KetSymbol("Xi", hs=q1*q3)', 'BasisKet("+1/2", hs=s1)']
SOPS = ['SuperOperatorSymbol("S", hs=q2)', 'SuperOperatorSymbol("T", hs=q2)', 'SuperOperatorSymbol("S", x, hs=q2)', 'SPre(%s)' % A, 'SPost(%s)' % Bo, 'IdentitySuperOperator']
RNG = ['IndexOverRange(i, 0, 2)', 'IndexOverRange(j, 0, 2)', 'IndexOverList(i, (0, 2))', 'IndexOverRange(i, 0, 4, 2)', 'IndexOverFockSpace(i, hs=q2)', 'IndexOverRange(j, 1, 3)',
       'IndexOverRange(j, 3, 0, -1)']


def gen_op(r, d):
    if d <= 0 or r.random() < .12:
        return r.choice(OPS)
    g = lambda k=1: gen_op(r, d - k)
    k = r.choice('+++**^scccdtpklimSkg')
    return {'+': lambda: '(%s + %s)' % (g(), g()), '*': lambda: '(%s * %s)' % (g(), g()), '^': lambda: '(%s).adjoint()' % g(),
            's': lambda: '(%s - %s)' % (g(), g()), 'c': lambda: '(%s) * (%s)' % (r.choice(SC) if r.random() < .8 else gen_scalar(r, 1), g()),
            'd': lambda: 'QuantumDerivative.create(%s, derivs={x: %d})' % (g(), r.choice((1, 1, 2))) if r.random() < .7 else
            'QuantumDerivative.create(%s, derivs={x: 1}, vals={x: 0})' % g(),
            't': lambda: 'OperatorTrace.create(%s, over_space=q2)' % g(), 'p': lambda: 'PseudoInverse.create(%s)' % g(),
            'k': lambda: 'NullSpaceProjector.create(%s)' % g(), 'l': lambda: 'Commutator.create(%s, %s)' % (g(2), g(2)),
            'i': lambda: 'OperatorIndexedSum.create((%s) * LocalSigma(FockIndex(i), FockIndex(i), hs=q2), %s)' % (g(2), ', '.join(
                dict.fromkeys([r.choice([x for x in RNG if '(i' in x])] + ([r.choice([x for x in RNG if '(j' in x])] if r.random() < .3 else [])))),
            'm': lambda: 'OperatorPlusMinusCC(%s, sign=%d)' % (g(), r.choice((1, -1))),
            'S': lambda: 'SuperOperatorTimesOperator.create(%s, %s)' % (gen_sop(r, d - 1), g()),
            'g': lambda: 'KetBra.create(%s, %s)' % (gen_ket(r, d - 1), gen_ket(r, d - 1))}[k]()


def gen_ket(r, d):
    if d <= 0 or r.random() < .12:
        return r.choice(KETS)
    g = lambda: gen_ket(r, d - 1)
    k = r.choice('++**soocci')
    return {'+': lambda: '(%s + %s)' % (g(), g()), '*': lambda: '(%s) * (%s)' % (g(), g()), 's': lambda: '(%s - %s)' % (g(), g()),
            'o': lambda: '(%s) * (%s)' % (gen_op(r, d - 1), g()), 'c': lambda: '(%s) * (%s)' % (r.choice(SC) if r.random() < .8 else gen_scalar(r, 1), g()),
            'i': lambda: 'KetIndexedSum.create((%s) * BasisKet(FockIndex(i), hs=q3), %s)' % (r.choice(SC), r.choice([x for x in RNG if '(i' in x]))}[k]()


def gen_sop(r, d):
    if d <= 0 or r.random() < .15:
        return r.choice(SOPS)
    g = lambda: gen_sop(r, d - 1)
    k = r.choice('++*^sc')
    return {'+': lambda: '(%s + %s)' % (g(), g()), '*': lambda: '(%s) * (%s)' % (g(), g()), 's': lambda: '(%s - %s)' % (g(), g()),
            '^': lambda: '(%s).adjoint()' % r.choice(SOPS[:3]), 'c': lambda: '(%s) * (%s)' % (r.choice(SC), g())}[k]()


def gen_scalar(r, d):
    if d <= 0 or r.random() < .15:
        return r.choice(['ScalarValue.create(%s)' % c for c in SC] + ['BraKet.create(%s, %s)' % (PSI, PHI)] * 6)
    g = lambda: gen_scalar(r, d - 1)
    k = r.choice('++*sb')
    return {'+': lambda: '(%s + %s)' % (g(), g()), '*': lambda: '(%s) * (%s)' % (g(), g()), 's': lambda: '(%s - %s)' % (g(), g()),
            'b': lambda: 'BraKet.create(%s, %s)' % (gen_ket(r, d - 1), gen_ket(r, d - 1))}[k]()


def gen_bra(r, d):
    return 'Bra(%s)' % ('(%s) * (%s)' % (gen_scalar(r, d - 1), gen_ket(r, d - 1)) if r.random() < .4 else gen_ket(r, d))


def gen_raw(r, d):
    """one level instantiated directly, without the simplifications"""
    o = lambda: gen_op(r, d - 1)
    k = lambda: gen_ket(r, d - 1)
    return r.choice([
        lambda: 'OperatorTimesKet(%s, %s)' % (o(), k()), lambda: 'BraKet(%s, %s)' % (k(), k()), lambda: 'KetBra(%s, %s)' % (k(), k()),
        lambda: 'Bra(OperatorTimesKet(%s, %s))' % (o() if r.random() < .6 else 'KetBra(%s, %s)' % (k(), k()), k()), lambda: 'Bra(ScalarTimesKet(BraKet(%s, %s), %s))' % (k(), k(), k()),
        lambda: 'Adjoint(KetBra(%s, %s))' % (k(), k()), lambda: 'Adjoint(%s)' % o(), lambda: 'Adjoint(Adjoint(%s))' % o(),
        lambda: 'Adjoint(OperatorTimes(%s, %s))' % (o(), o()), lambda: 'PseudoInverse(%s)' % o(),
        lambda: 'OperatorTimes(%s, %s)' % (o(), o()), lambda: 'OperatorPlusMinusCC(%s, sign=%d)' % (o(), r.choice((1, -1))),
        lambda: 'Commutator(%s, %s)' % (o(), o()),
        lambda: 'OperatorIndexedSum((%s) * LocalSigma(FockIndex(i), FockIndex(i), hs=q2) + (%s), %s)' % (o(), o(), r.choice([x for x in RNG if '(i' in x])),
        lambda: 'KetIndexedSum((%s) + (%s), %s)' % (k(), k(), r.choice([x for x in RNG if '(i' in x])),
        lambda: 'SuperOperatorTimesOperator(%s, %s)' % (gen_sop(r, d - 1), o()),
        lambda: 'SuperAdjoint(%s)' % gen_sop(r, d - 1)])()


def valid(src):
    try:
        e = ev(src)
    except Exception:
        return False
    return isa(e, 'Expression')


FIXED = ['(%s * %s) * (%s)' % (A, Bo, PSI), '((%s * %s) * (%s)).adjoint()' % (A, Bo, PSI),
         'Adjoint(%s)' % _o('A', 'q2', ', x'), '(%s).adjoint() + (%s).adjoint()' % (_o('A', 'q2', ', x'), A),
         'OperatorSymbol("A", hs=q2) - (OperatorSymbol("B", hs=q2) - alpha * OperatorSymbol("C", hs=q1))',
         '(QuantumDerivative.create(%s, derivs={x: 1}) * (%s)).adjoint()' % (_o('A', 'q2', ', x'), PSI),
         '(PseudoInverse(%s) * %s).adjoint()' % (A, PSI), '(OperatorPlusMinusCC(%s) * %s).adjoint()' % (A, PSI),
         '(SuperOperatorTimesOperator.create(SuperOperatorSymbol("S", hs=q2), %s) * %s).adjoint()' % (A, PSI),
         '((%s + 1) * %s).adjoint()' % (A, PSI), '2 * OperatorPlusMinusCC(%s)' % A, '(-1) * (%s + %s)' % (A, Bo),
         '(-1) * OperatorPlusMinusCC(%s)' % A, '%s - (-1) * OperatorPlusMinusCC(%s)' % (A, Bo),
         '(Adjoint(OperatorTimes(%s, %s)) * %s).adjoint()' % (A, _o('A', 'q1*q2'), PSI),
         'SuperOperatorTimesOperator.create(SuperOperatorSymbol("S", hs=q2) + SuperOperatorSymbol("T", hs=q2), %s)' % A,
         'OperatorIndexedSum.create(alpha**i * %s, IndexOverRange(i, 0, 4, 2))' % A,
         '(LocalSigma("g", "e", hs=q1) * BasisKet("g", hs=q1)).adjoint()', 'SuperAdjoint(SuperOperatorSymbol("S", x, hs=q2))',
         'SuperAdjoint(SuperOperatorSymbol("S", x, hs=q2)) + SuperAdjoint(SuperOperatorSymbol("S", hs=q2))',
         'Adjoint(%s) * %s' % (A, Bo), '(ScalarValue.create(2) + BraKet.create(%s, %s)) * %s' % (PSI, PHI, A),
         '(QuantumDerivative.create(BraKet.create(KetSymbol("Psi", x, hs=q2), %s), derivs={x: 1}) * %s)' % (PHI, A),
         'Bra((-BraKet.create(%s, %s)) * %s)' % (PSI, PHI, PSI), 'OperatorTimesKet(%s - %s, %s)' % (A, Bo, PSI),
         'OperatorTimesKet(-%s + %s, %s)' % (A, Bo, PSI), 'OperatorTimesKet(%s, %s - %s)' % (A, PSI, PHI),
         'Bra(BraKet.create(%s, %s * %s) * %s)' % (PSI, A, PHI, PSI),
         'Bra(BraKet(%s * %s, %s + %s) * %s)' % (A, PSI, PSI, PHI, PSI), 'Adjoint(KetBra(%s * %s, %s + %s))' % (A, PSI, PSI, PHI),
         'Bra(OperatorTimesKet(KetBra(%s * %s, %s + %s), %s))' % (A, PSI, PSI, PHI, PSI),
         'SuperOperatorTimesOperator(2*SuperOperatorSymbol("S", hs=q2) - IdentitySuperOperator, %s)' % A,
         'OperatorIndexedSum(LocalSigma(FockIndex(i), FockIndex(i), hs=q2) + %s, IndexOverRange(i, 0, 2))' % A]


def read_cases(rng, n):
    srcs = list(FIXED) + pool.OP + pool.KET + pool.SOP + OPS + KETS
    gens = [gen_op, gen_op, gen_ket, gen_sop, gen_scalar, gen_bra, gen_raw]
    for t in range(n):
        s = gens[t % len(gens)](rng, rng.choice((1, 2, 2, 3)))
        srcs.append(s)
        if rng.random() < .3:
            srcs.append('(%s).adjoint()' % s)
    for s in srcs:
        if valid(s):
            for f in FORMATS:
                yield case('read', s, f)


def srepr_cases(rng, n):
    srcs = pool.OP + pool.KET + pool.SOP + pool.SCALAR + OPS + KETS + FIXED
    gens = [gen_op, gen_ket, gen_sop, gen_scalar]
    for t in range(n):
        srcs.append(gens[t % len(gens)](rng, rng.choice((1, 2, 3))))
    srcs += [gen_circuit(rng, rng.choice((1, 2, 3))) for _ in range(n // 4)]
    srcs += ['Matrix([[%s, %s], [%s, 1]])' % (A, Bo, PSI[:0] + C), 'q1', 'q1*q2', 'SpinSpace("s1", spin=(1, 2))', 'LocalSpace(1)', 'IndexOverRange(i, 0, 4, 2)',
             'SLH(identity_matrix(2), [%s, 0], %s)' % (A, Bo)]
    for s in srcs:
        try:
            ev(s)
        except Exception:
            continue
        yield case('srepr', s)


def gen_circuit(r, d, n=None):
    n = n or r.choice((1, 2, 2, 3))
    if d <= 0 or r.random() < .15:
        return r.choice(['CircuitSymbol("%s%d", cdim=%d)' % (x, n, n) for x in 'XYZ'] + (['CIdentity'] if n == 1 else []) +
                        (['CPermutation.create((1, 0))'] if n == 2 else []) + ['CircuitSymbol("W%d", x, cdim=%d)' % (n, n)])
    k = r.choice('<<++fi')
    if k == '<':
        return '(%s << %s)' % (gen_circuit(r, d - 1, n), gen_circuit(r, d - 1, n))
    if k == '+' and n > 1:
        a = r.randrange(1, n)
        return '(%s + %s)' % (gen_circuit(r, d - 1, a), gen_circuit(r, d - 1, n - a))
    if k == 'f' and n < 4:
        return '(%s).feedback(out_port=%d, in_port=%d)' % (gen_circuit(r, d - 1, n + 1), r.randrange(n + 1), r.randrange(n + 1))
    return 'SeriesInverse.create(%s)' % gen_circuit(r, d - 1, n)


def circuit_cases(rng, n):
    for _ in range(n):
        s = gen_circuit(rng, rng.choice((1, 2, 3)))
        try:
            ev(s)
        except Exception:
            continue
        for f in FORMATS:
            yield case('circuit_text', s, f)


def register(C):
    C.update(read=chk_read, srepr=chk_srepr, circuit_text=chk_circuit)
