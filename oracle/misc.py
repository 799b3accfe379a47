"""C22 (equations), C15 (caching, temporary settings), C16 (pattern matching), C26 (equality), C21 (printing)."""
import itertools
import random

import sympy

from pyvc import live as L   # noqa: F401
from . import den as N   # noqa: F401
from .pool import ev, NS

Eq = NS['Eq']


def case(check, *args):
    return dict(kind='check', check=check, args=list(args))


# ------------------------------------------------------------------ equations

class Tok:
    """a side that records what was done to it"""

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Tok) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return '%s' % (self.t[0],) if len(self.t) == 1 else '%s(%s)' % (self.t[0], ', '.join(map(repr, self.t[1:])))

    __str__ = __repr__

    def named(self, *args, **kw):
        return Tok('named', self) + [*args, *sorted(kw.items())]

    def same(self, *args, **kw):
        return self

    def expand(self):
        return Tok('expand', self)

    def simplify_scalar(self):
        return Tok('simp', self)

    @property
    def free_symbols(self):
        return {('f', self)}

    @property
    def bound_symbols(self):
        return {('b', self)}

    def substitute(self, var_map):
        return Tok('subst', self, repr(var_map))


def _bin(nm):
    def f(self, o):
        if isinstance(o, Eq):
            return NotImplemented
        return Tok(nm, self, o if isinstance(o, Tok) else repr(o))

    def r(self, o):
        if isinstance(o, Eq):
            return NotImplemented
        return Tok(nm, repr(o), self)
    return f, r


for _nm in ('add', 'sub', 'mul', 'truediv'):
    _f, _r = _bin(_nm)
    setattr(Tok, '__%s__' % _nm, _f)
    setattr(Tok, '__r%s__' % _nm, _r)


def fn(x, *args, **kw):
    return Tok('fn', x, *args, *[repr(i) for i in sorted(kw.items())])


def keep(x, *args, **kw):
    return x


class Ref:
    """what the equation should say: lines of (shown left side or None, right side, tag)"""

    def __init__(self, lines, lhs):
        self.lines, self.lhs = lines, lhs

    @property
    def rhs(self):
        return self.lines[-1][1]

    def step(self, lhs, rhs, tag, cont, hide=None):
        hide = (lhs == self.lhs) if hide is None else hide
        if cont:
            return Ref(self.lines + [(None if hide else lhs, rhs, tag)], lhs)
        return Ref([(lhs, rhs, tag)], lhs)


def eq_step(e, r, op, other):
    """(equation, reference) after one operation"""
    k, cont, tag, f = op
    kw = dict(cont=cont, tag=tag)
    F = {'fn': fn, 'keep': keep}[f]
    M = {'fn': 'named', 'keep': 'same'}[f]
    x = Tok('x')
    g = (lambda s: F(s, x, key=7))
    h = (lambda s: getattr(s, M)(x, key=7))
    if k == 'apply':
        return e.apply(F, x, key=7, **kw), r.step(g(r.lhs), g(r.rhs), tag, cont)
    if k == 'apply_to_lhs':
        return e.apply_to_lhs(F, x, key=7, **kw), r.step(g(r.lhs), r.rhs, tag, cont, False)
    if k == 'apply_to_rhs':
        return e.apply_to_rhs(F, x, key=7, **kw), r.step(r.lhs, g(r.rhs), tag, cont, True)
    if k == 'apply_mtd':
        return e.apply_mtd(M, x, key=7, **kw), r.step(h(r.lhs), h(r.rhs), tag, cont)
    if k == 'apply_mtd_to_lhs':
        return e.apply_mtd_to_lhs(M, x, key=7, **kw), r.step(h(r.lhs), r.rhs, tag, cont, False)
    if k == 'apply_mtd_to_rhs':
        return e.apply_mtd_to_rhs(M, x, key=7, **kw), r.step(r.lhs, h(r.rhs), tag, cont, True)
    if k == 'substitute':
        return e.substitute({1: 2}, **kw), r.step(r.lhs.substitute({1: 2}), r.rhs.substitute({1: 2}), tag, cont)
    if k == 'set_tag':
        return e.set_tag(tag), Ref(r.lines[:-1] + [r.lines[-1][:2] + (tag,)], r.lhs)
    if k == 'copy':
        return e.copy(), r
    one = lambda a, b: Ref([(a, b, None)], a)
    oe, orf = other
    if k == 'add':
        return e + oe, one(r.lhs + orf.lhs, r.rhs + orf.rhs)
    if k == 'sub':
        return e - oe, one(r.lhs - orf.lhs, r.rhs - orf.rhs)
    v = Tok('v')
    if k == 'addv':
        return e + v, one(r.lhs + v, r.rhs + v)
    if k == 'subv':
        return e - v, one(r.lhs - v, r.rhs - v)
    if k == 'raddv':
        return v + e, one(v + r.lhs, v + r.rhs)
    if k == 'mulv':
        return e * v, one(r.lhs * v, r.rhs * v)
    if k == 'rmulv':
        return v * e, one(v * r.lhs, v * r.rhs)
    if k == 'divv':
        return e / v, one(r.lhs / v, r.rhs / v)
    if k == 'add3':
        return e + 3, one(r.lhs + 3, r.rhs + 3)
    if k == 'radd3':
        return 3 + e, one(3 + r.lhs, 3 + r.rhs)
    if k == 'rmul3':
        return 3 * e, one(3 * r.lhs, 3 * r.rhs)
    raise ValueError(k)


OPS = ['apply', 'apply_to_lhs', 'apply_to_rhs', 'apply_mtd', 'apply_mtd_to_lhs', 'apply_mtd_to_rhs', 'substitute', 'set_tag', 'copy',
       'add', 'sub', 'addv', 'subv', 'raddv', 'mulv', 'rmulv', 'divv', 'add3', 'radd3', 'rmul3']


def eq_same(e, r):
    if e.lhs != r.lhs or e.rhs != r.rhs:
        return 'reads %r = %r, expected %r = %r' % (e.lhs, e.rhs, r.lhs, r.rhs)
    if e.tag != r.lines[-1][2]:
        return 'tag %r, expected %r' % (e.tag, r.lines[-1][2])
    if e.as_dict != {r.lhs: r.rhs}:
        return 'as_dict'
    if e.free_symbols != {('f', r.lhs), ('f', r.rhs)} or e.bound_symbols != {('b', r.lhs), ('b', r.rhs)} or \
            e.all_symbols != {('f', r.lhs), ('f', r.rhs), ('b', r.lhs), ('b', r.rhs)}:
        return 'symbols'
    if e.verify() != r.lhs.expand().simplify_scalar() - r.rhs.expand().simplify_scalar():
        return 'verify'
    if e.verify(fn, 1) != fn(r.lhs.expand().simplify_scalar() - r.rhs.expand().simplify_scalar(), 1):
        return 'verify with a function'
    for show in (str, repr):
        got = show(e).split('\n')
        if len(got) != len(r.lines):
            return '%d lines shown, expected %d' % (len(got), len(r.lines))
        for s, (a, b, t) in zip(got, r.lines):
            want = ((show(a) if a is not None else '') + '=' + show(b) + ('(%s)' % show(t) if t is not None else '')).replace(' ', '')
            if s.replace(' ', '').replace('()', '') != want.replace('()', ''):
                return 'line %r, expected %r' % (s, want)
    return None


def chk_equation(tag, ops):
    a, b = Tok('a'), Tok('b')
    e, r = Eq(a, b, tag=tag), Ref([(a, b, tag)], a)
    oe, orf = Eq(Tok('c'), Tok('d'), tag=5), Ref([(Tok('c'), Tok('d'), 5)], Tok('c'))
    hist = [(e, r)]
    for op in ops:
        e, r = eq_step(e, r, op, (oe, orf))
        hist.append((e, r))
    for e, r in hist:                    # earlier equations are not touched by later operations
        m = eq_same(e, r)
        if m:
            return ('bad', m)
    for (e, r), (f, s) in itertools.combinations(hist + [(oe, orf)], 2):
        if (e == f) != (r.lhs == s.lhs and r.rhs == s.rhs):
            return ('bad', '%r == %r is %r' % (e, f, e == f))
    return None


def equation_cases(rng, n):
    for k in OPS:
        for f in ('fn', 'keep'):
            for cont in (False, True):
                for tag in (None, 4, 'T'):
                    yield case('equation', 1, [(k, cont, tag, f)])
    for k1, k2 in itertools.product(OPS[:9], OPS):
        yield case('equation', rng.choice([None, 0, 1]), [(k1, True, rng.choice([None, 2]), rng.choice(['fn', 'keep'])), (k2, True, rng.choice([None, 3]), rng.choice(['fn', 'keep']))])
    for _ in range(n):
        ops = [(rng.choice(OPS if rng.random() < .3 else OPS[:9]), rng.random() < .8, rng.choice([None, 2, 'x', '7']), rng.choice(['fn', 'fn', 'keep']))
               for _ in range(rng.randint(2, 7))]
        ops = [(a, b, 7 if c == '7' else c, d) for a, b, c, d in ops]
        yield case('equation', rng.choice([None, 1]), ops)
    SIDES = ['OperatorSymbol("A", hs=q1)', 'OperatorSymbol("B", hs=q1)', 'OperatorSymbol("C", hs=q2)', 'alpha*OperatorSymbol("A", hs=q1)']
    CIRC = ['CircuitSymbol("A", cdim=1)', 'CircuitSymbol("B", cdim=1)', 'CircuitSymbol("C", cdim=2)']
    for pool, ops in ((SIDES, '+-*'), (CIRC, '+')):
        for l, r, v in itertools.product(pool, repeat=3):
            for op in ops:
                yield case('equation_real', l, r, v, op)


def chk_equation_real(l, r, v, op):
    l, r, v = ev(l), ev(r), ev(v)
    f = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}[op]
    e = f(Eq(l, r), v)
    if e.lhs != f(l, v) or e.rhs != f(r, v):
        return ('bad', '%s = %s after %s of the value' % (e.lhs, e.rhs, op))
    if op != '-':
        e = f(v, Eq(l, r))
        if not isinstance(e, Eq) or e.lhs != f(v, l) or e.rhs != f(v, r):
            return ('bad', '%s after %s from the left' % (e, op))
    if op in '+-':
        e = f(Eq(l, r), Eq(v, l))
        if e.lhs != f(l, v) or e.rhs != f(r, l):
            return ('bad', '%s = %s after %s of equations' % (e.lhs, e.rhs, op))
    return None


# ------------------------------------------------------------------ caching and temporary settings (C15)

Expression = NS['Expression'] if 'Expression' in NS else __import__('qnet.algebra.core.abstract_algebra', fromlist=['Expression']).Expression
TC = __import__('qnet.algebra.toolbox.core', fromlist=['x'])
PR = __import__('qnet.printing', fromlist=['x'])
ATTRS = ('_instances', 'simplifications', '_rules', '_binary_rules', 'instance_caching')
NS['Expression'] = Expression


def classes():
    out = [Expression]
    for c in out:
        out.extend(s for s in c.__subclasses__() if s not in out)
    return out


def content(v):
    if isinstance(v, dict):
        return [(k, id(x)) for k, x in v.items()]
    return [id(x) for x in v]


def snapshot():
    own = {(c, a): vars(c)[a] for c in classes() for a in ATTRS if a in vars(c)}
    cont = {k: (content(v) if k[1] in ('simplifications', '_rules', '_binary_rules') else v if k[1] == 'instance_caching' else None)
            for k, v in own.items()}
    return own, cont


def differs(a, b, skip=()):
    for k in set(a[0]) | set(b[0]):
        if k[0] in skip and k[1] != '_instances':
            continue                     # protected, and legitimately changed, further outside
        if k not in b[0]:
            return '%s.%s is gone' % (k[0].__name__, k[1])
        if k not in a[0]:
            return '%s.%s was left behind' % (k[0].__name__, k[1])
        if k[1] != 'instance_caching' and a[0][k] is not b[0][k]:
            return '%s.%s is another object' % (k[0].__name__, k[1])
        if a[1][k] != b[1][k]:
            return '%s.%s changed' % (k[0].__name__, k[1])
    return None


def force(snap, conts):
    for c in classes():
        for a in ATTRS:
            if (c, a) in snap[0]:
                if vars(c).get(a) is not snap[0][(c, a)]:
                    setattr(c, a, snap[0][(c, a)])
            elif a in vars(c):
                delattr(c, a)
    for (c, a), v in conts.items():
        o = snap[0][(c, a)]
        o.clear()
        o.extend(v) if isinstance(o, list) else o.update(v)


def raw(src):
    """the value or the exception of evaluating the text"""
    try:
        return eval(src, NS)
    except RecursionError:
        raise
    except Exception as x:
        return x


def show(v):
    if isinstance(v, Exception):
        return '%s: %s' % (type(v).__name__, str(v)[:80])
    try:
        return NS['srepr'](v)
    except Exception:
        return repr(v)


def same_result(a, b, exact):
    if isinstance(a, Exception) or isinstance(b, Exception):
        return type(a) is type(b)
    try:
        eq = bool(a == b)
    except Exception:
        eq = show(a) == show(b)
    return eq and (not exact or type(a) is type(b) and show(a) == show(b) and (not isinstance(a, Expression) or hash(a) == hash(b)))


def chk_history(hist, src, exact=True):
    with TC.temporary_instance_cache(Expression):
        r0 = raw(src)
        r0b = raw(src)
    with TC.temporary_instance_cache(Expression):
        for h in hist:
            raw(h)
        r1 = raw(src)
    with TC.no_instance_caching():
        r2 = raw(src)
    for nm, r in (('the second time', r0b), ('after %s' % '; '.join(hist), r1), ('without caching', r2)):
        if not same_result(r0, r, exact):
            return ('bad', '%s gives %s, but %s %s' % (src, show(r0)[:300], nm, show(r)[:300]))
    return None


PROBES = ['Destroy(hs=f1) * Create(hs=f1)', 'SPre(Destroy(hs=f1)) * SPre(Create(hs=f1))', 'OperatorSymbol("A", hs=q1) + OperatorSymbol("A", hs=q1)',
          'Commutator.create(Destroy(hs=f1), Create(hs=f1))', '2 * (3 * OperatorSymbol("A", hs=q1))', 'KetSymbol("Psi", hs=q1) - KetSymbol("Psi", hs=q1)',
          'LocalSigma("g", "e", hs=q1) * BasisKet("e", hs=q1)', 'CircuitSymbol("A", cdim=1) << (CircuitSymbol("A", cdim=1).series_inverse())',
          'OperatorTrace.create(OperatorSymbol("A", hs=q1) * OperatorSymbol("B", hs=q2), over_space=q1)', 'Destroy(hs=f1)**3 * Create(hs=f1)',
          'OperatorSymbol("B", hs=q1) * OperatorSymbol("A", hs=q2)', 'Commutator.create(OperatorSymbol("A", hs=q1), OperatorSymbol("B", hs=q2))',
          'KetBra.create(BasisKet("g", hs=q1), BasisKet("e", hs=q1))', 'BraKet.create(BasisKet("g", hs=q1), BasisKet("e", hs=q1))',
          'IdentityOperator.create()', 'ZeroOperator + OperatorSymbol("A", hs=q1)', 'Displace(0, hs=f1)']
RULED = ['OperatorTimes', 'OperatorPlus', 'ScalarTimesOperator', 'Commutator', 'KetBra', 'BraKet', 'SuperOperatorTimes', 'SPre', 'OperatorTrace',
         'ScalarTimes', 'TensorKet', 'KetPlus', 'SeriesProduct', 'Concatenation', 'ScalarTimesKet', 'OperatorTimesKet', 'Displace', 'NullSpaceProjector']
ANYCLS = RULED + ['Expression', 'Operator', 'OperatorSymbol', 'LocalSigma', 'QuantumExpression', 'LocalOperator', 'BasisKet', 'LocalKet',
                  'Scalar', 'SuperOperator', 'State', 'LocalSpace', 'Destroy', 'OperatorOperation', 'QuantumOperation']
exec('from qnet.algebra.core.abstract_quantum_algebra import *\nfrom qnet.algebra.core.operator_algebra import *\n'
     'from qnet.algebra.core.state_algebra import *\nfrom qnet.algebra.core.abstract_algebra import Operation\n', NS)
ANYCLS = [c for c in ANYCLS if c in NS]


class Boom(Exception):
    pass


class Bad(Exception):
    pass


def two_wc():
    w = NS['wc']
    return NS['pattern_head'](w('A'), w('B'))


def act(op, prot):
    """one action inside the contexts; prot: classes whose rules may be changed"""
    k = op[0]
    if k == 'make':
        a = raw(op[1])
        with TC.no_instance_caching():
            b = raw(op[1])
        if not same_result(a, b, True):
            raise Bad('%s gives %s with and %s without caching' % (op[1], show(a)[:200], show(b)[:200]))
    elif k == 'raise':
        raise Boom(op[1])
    elif k in ('add', 'del', 'delall', 'simpl'):
        c = NS[prot[op[1] % len(prot)]] if prot else None
        if c is None:
            return
        if k == 'simpl':
            c.simplifications[:] = c.simplifications[op[2]:]
            Expression._instances.clear()
            c._instances.clear()
            return
        try:
            attr = c._rules_attr()
        except TypeError:
            return
        if not hasattr(c, attr):
            return
        if k == 'add':
            nm = 'tmp%d' % op[2]
            if nm in getattr(c, attr):
                return
            for p in PROBES:
                raw(p)                       # before the rule is there
            two = attr == '_binary_rules' or c.__name__ in ('ScalarTimesOperator', 'Commutator', 'KetBra', 'BraKet', 'ScalarTimesKet', 'OperatorTimesKet')
            one = NS['pattern_head'](NS['wc']('A'))
            n0 = len(getattr(c, attr))
            c.add_rule(nm, two_wc() if two else one, (lambda A, B: B) if two else (lambda A: A))
            if list(getattr(c, attr))[-1] != nm or len(getattr(c, attr)) != n0 + 1 or nm not in list(c.rules()):
                raise Bad('rule not added')
        elif k == 'del':
            names = list(getattr(c, attr))
            if names:
                nm = names[op[2] % len(names)]
                c.del_rules(nm)
                if list(getattr(c, attr)) != [i for i in names if i != nm]:
                    raise Bad('rule not deleted')
        else:
            c.del_rules()
            if len(getattr(c, attr)):
                raise Bad('rules not deleted')
        for p in PROBES:
            act(('make', p), prot)
    else:
        raise ValueError(k)


def run_script(script, prot=(), nested=False):
    for op in script:
        if op[0] != 'with':
            act(op, list(prot))
            continue
        _, kind, cls, flag, body = op
        before = snapshot()
        cs = [NS[c] for c in cls]
        keys = {c: set(k for k in c._instances if isinstance(k, tuple) and k and isinstance(k[0], type) and issubclass(k[0], c)) for c in cs}
        inst = {c: c._instances for c in classes()}
        rules = {(c, a): list(getattr(c, a).items()) for c in cs for a in ('_rules', '_binary_rules') if hasattr(c, a)}
        simp = {c: list(c.simplifications) for c in cs}
        if kind == 'nocache':
            ctx = TC.no_instance_caching()
        elif kind == 'inst':
            ctx = TC.temporary_instance_cache(*cs)
        else:
            ctx = TC.temporary_rules(*cs, clear=bool(flag)) if flag is not None else TC.temporary_rules(*cs)
        exc = None
        try:
            with ctx:
                if kind == 'nocache':
                    if any(c.instance_caching for c in classes()):
                        raise Bad('caching is not disabled')
                    n = {c: len(c._instances) for c in classes()}
                    for p in PROBES[:4]:
                        raw(p)
                    if n != {c: len(c._instances) for c in classes()}:
                        raise Bad('instances cached although caching is disabled')
                else:
                    for c in cs:
                        if len(c._instances) or any(c._instances is d for d in inst.values()):
                            raise Bad('cache of %s is not temporary' % c.__name__)
                    if Expression.instance_caching:
                        pass
                if kind == 'rules':
                    for (c, a), v in rules.items():
                        r = getattr(c, a)
                        if r is before[0].get((c, a)) or list(r.items()) != ([] if flag else v):
                            raise Bad('%s.%s within the context' % (c.__name__, a))
                    for c in cs:
                        if c.simplifications is before[0].get((c, 'simplifications')) or list(c.simplifications) != simp[c]:
                            raise Bad('%s.simplifications within the context' % c.__name__)
                run_script(body, list(cls) if kind == 'rules' else (list(prot) if nested else []), nested)
        except Boom as x:
            exc = x
        m = differs(before, snapshot(), set(NS[c] for c in prot) - (set(cs) if kind == 'rules' else set()))
        if m:
            raise Bad('after leaving %s(%s): %s' % (kind, ', '.join(cls), m))
        for c in cs if kind != 'nocache' else ():
            now = set(k for k in c._instances if isinstance(k, tuple) and k and isinstance(k[0], type) and issubclass(k[0], c))
            if not (nested or keys[c] <= now):
                raise Bad('cached instances of %s lost' % c.__name__)
            if now - keys[c]:
                raise Bad('cached instances of %s kept from the context' % c.__name__)
        for p in PROBES:
            act(('make', p), prot)
        if exc is not None:
            raise exc


def want_boom(script):
    for op in script:
        if op[0] == 'raise':
            return op[1]
        if op[0] == 'with':
            b = want_boom(op[4])
            if b is not None:
                return b
    return None


def chk_settings(script, nested=False):
    snap = snapshot()
    conts = {k: (list(v) if isinstance(v, list) else dict(v)) for k, v in snap[0].items() if k[1] != 'instance_caching'}
    try:
        got = None
        try:
            run_script(script, (), nested)
        except Boom as x:
            got = x.args[0]
        if got != want_boom(script):
            return ('bad', 'the exception raised inside did not come out: %r instead of %r' % (got, want_boom(script)))
        return None
    except Bad as x:
        return ('bad', str(x))
    finally:
        force(snap, conts)


def settings_cases(rng, n):
    for c in ANYCLS:
        for kind, flags in (('inst', [None]), ('rules', [None, False, True]), ('nocache', [None])):
            for f in flags:
                for body in ([], [['raise', 1]], [['make', PROBES[0]], ['add', 0, 0], ['raise', 2]]):
                    yield case('settings', [['with', kind, [] if kind == 'nocache' else [c], f, body]])
    for c in RULED:
        yield case('settings', [['with', 'rules', [c], False, [['add', 0, 1], ['del', 0, 3], ['simpl', 0, 1]]]])
        yield case('settings', [['with', 'rules', [c], False, [['delall', 0], ['make', PROBES[1]], ['raise', 1]]]])
        yield case('settings', [['with', 'rules', [c, 'OperatorTimes', c], True, [['make', p] for p in PROBES]]])
        yield case('settings', [['with', 'inst', ['Expression', c, c], True, [['make', p] for p in PROBES]]])

    def body(d):
        out = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if d and r < .45:
                k = rng.choice(['inst', 'rules', 'rules', 'nocache'])
                out.append(['with', k, [rng.choice(ANYCLS if rng.random() < .4 else RULED) for _ in range(0 if k == 'nocache' else rng.randint(1, 3))],
                            rng.choice([None, False, True]), body(d - 1)])
            elif r < .7:
                out.append(['make', rng.choice(PROBES)])
            elif r < .95:
                out.append([rng.choice(['add', 'del', 'del', 'delall', 'simpl']), rng.randrange(4), rng.randrange(4)])
            else:
                out.append(['raise', rng.randrange(9)])
        return out
    for _ in range(n):
        k = rng.choice(['inst', 'rules', 'rules', 'nocache'])
        yield case('settings', [['with', k, [rng.choice(ANYCLS if rng.random() < .4 else RULED) for _ in range(0 if k == 'nocache' else rng.randint(1, 3))],
                                 rng.choice([None, False, True]), body(3)]])


PRINTS = [dict(show_hs_label=False), dict(str_format='srepr'), dict(repr_format='latex'), dict(str_format='unicode', repr_format='srepr'),
          dict(sig_as_ketbra=False), dict(show_hs_label='subscript'), dict(caching=False), dict(reset=True), dict(str_format='ascii', show_hs_label=False)]


def printed():
    es = [ev('OperatorSymbol("A", hs=q1)'), ev('LocalSigma("g", "e", hs=q1)'), ev('KetSymbol("Psi", hs=q1)'), ev('alpha * OperatorSymbol("A", hs=f1)')]
    out = []
    for e in es:
        out += [str(e), repr(e)] + [NS[f](e) for f in ('ascii', 'unicode', 'latex', 'srepr')] + [NS[f](e, sig_as_ketbra=True) for f in ('ascii', 'unicode', 'latex')]
    return out


def chk_printing(stack, boom):
    a = printed()
    exc = Boom('x')

    def go(st):
        if not st:
            if boom:
                raise exc
            return
        o = PRINTS[st[0]]
        with PR.configure_printing(init_sympy=False, **o):
            s = ev('OperatorSymbol("A", hs=q1)')
            if o.get('show_hs_label', 1) is False and NS['ascii'](s) != 'A' or o.get('str_format') == 'srepr' and str(s) != NS['srepr'](s):
                raise Bad('configure_printing(%r) has no effect' % (o,))
            inner = printed()
            go(st[1:])
            if printed() != inner:
                raise Bad('settings of the outer configure_printing lost')
    try:
        go(stack)
    except Boom as x:
        if x is not exc:
            return ('bad', 'another exception')
    except Bad as x:
        return ('bad', str(x))
    b = printed()
    if a != b:
        return ('bad', 'printing changed: %r instead of %r' % ([j for i, j in zip(a, b) if i != j][0], [i for i, j in zip(a, b) if i != j][0]))
    return None


def history_cases(rng, n):
    for k in range(len(PRINTS)):
        for b in (0, 1):
            yield case('printing', [k], b)
            yield case('printing', [rng.randrange(len(PRINTS)), k], b)
            yield case('printing', [0, k, rng.randrange(len(PRINTS))], b)
    num = [('LocalSpace.create(1)', 'LocalSpace.create(1.0)'), ('LocalSpace.create(1)', 'LocalSpace.create(True)'), ('LocalSpace.create("1")', 'LocalSpace.create(1)'),
           ('LocalSpace.create("q", basis=(0, 1))', 'LocalSpace.create("q", basis=(False, True))'), ('LocalSpace.create("q", basis=(0, 1))', 'LocalSpace.create("q", dimension=2)'),
           ('LocalSpace.create("q")', 'LocalSpace.create("q", dimension=2)'), ('LocalSpace.create("q", order_index=1)', 'LocalSpace.create("q", order_index=2)'),
           ('LocalSpace.create("q", local_identifiers={"Destroy": "b"})', 'LocalSpace.create("q", local_identifiers={"Create": "b"})'),
           ('SpinSpace.create("q", spin=1)', 'SpinSpace.create("q", spin=2)'), ('SpinSpace.create("q", spin=1)', 'SpinSpace.create("q", spin=1, basis=("a", "b", "c"))'),
           ('OperatorSymbol.create("A", hs=f1)', 'OperatorSymbol.create("A", hs=f2)'), ('OperatorSymbol.create("A", hs=f1)', 'KetSymbol.create("A", hs=f1)'),
           ('OperatorSymbol.create("A", x, hs=f1)', 'OperatorSymbol.create("A", hs=f1)'), ('OperatorSymbol.create("A", x, y, hs=f1)', 'OperatorSymbol.create("A", y, x, hs=f1)'),
           ('CircuitSymbol.create("A", cdim=1)', 'CircuitSymbol.create("A", cdim=2)'), ('BasisKet.create(0, hs=f1)', 'BasisKet.create(1, hs=f1)'),
           ('BasisKet.create(0, hs=f1)', 'BasisKet.create(0, hs=f2)'), ('LocalSigma.create(0, 1, hs=f1)', 'LocalSigma.create(1, 0, hs=f1)'),
           ('OperatorPlusMinusCC(OperatorSymbol("A", hs=f1), sign=-1)', 'OperatorPlusMinusCC(OperatorSymbol("A", hs=f1), sign=+1)'),
           ('OperatorPlusMinusCC.create(OperatorSymbol("A", hs=f1), sign=-1)', 'OperatorPlusMinusCC.create(OperatorSymbol("A", hs=f1), sign=+1)'),
           ('CoherentStateKet.create(x, hs=f1)', 'CoherentStateKet.create(symbols("x"), hs=f1)'), ('Destroy.create(hs=f1)', 'Create.create(hs=f1)'),
           ('OperatorTrace.create(OperatorSymbol("A", hs=q1*q2), over_space=q1)', 'OperatorTrace.create(OperatorSymbol("A", hs=q1*q2), over_space=q2)'),
           ('CPermutation.create((1, 0))', 'CPermutation.create((0, 1))'), ('Feedback.create(CircuitSymbol("A", cdim=3), out_port=0, in_port=1)', 'Feedback.create(CircuitSymbol("A", cdim=3), out_port=1, in_port=0)'),
           ('OperatorIndexedSum.create(LocalSigma(FockIndex(i), FockIndex(i), hs=f1), ranges=(IndexOverRange(i, 0, 2),))',
            'OperatorIndexedSum.create(LocalSigma(FockIndex(i), FockIndex(i), hs=f1), ranges=(IndexOverRange(i, 0, 3),))'),
           ('OperatorIndexedSum.create(LocalSigma(FockIndex(i), FockIndex(j), hs=f1), IndexOverRange(i, 0, 2))',
            'OperatorIndexedSum.create(LocalSigma(FockIndex(i), FockIndex(j), hs=f1), IndexOverRange(j, 0, 2))'),
           ('Displace.create(1, hs=f1)', 'Displace.create(-1, hs=f1)'), ('Bra.create(BasisKet(0, hs=f1))', 'BasisKet.create(0, hs=f1)'),
           ('QuantumDerivative.create(OperatorSymbol("A", x, y, hs=f1), derivs={x: 1})', 'QuantumDerivative.create(OperatorSymbol("A", x, y, hs=f1), derivs={x: 2})'),
           ('QuantumDerivative.create(OperatorSymbol("A", x, y, hs=f1), derivs={x: 1}, vals={x: 0})', 'QuantumDerivative.create(OperatorSymbol("A", x, y, hs=f1), derivs={x: 1})')]
    for a, b in num:
        for h, s in ((a, b), (b, a), (a, a)):
            yield case('history', [h], s)
        yield case('distinct', a, b)
    for a, b in [('ScalarTimesOperator.create(1, OperatorSymbol("A", hs=f1))', 'ScalarTimesOperator.create(1.0, OperatorSymbol("A", hs=f1))'),
                 ('ScalarValue.create(2)', 'ScalarValue.create(2.0)'), ('OperatorSymbol.create("A", 1, hs=f1)', 'OperatorSymbol.create("A", 1.0, hs=f1)'),
                 ('ScalarPower.create(ScalarValue.create(alpha), 2)', 'ScalarPower.create(ScalarValue.create(alpha), 2.0)')]:
        yield case('history', [a], b, False)
        yield case('history', [b], a, False)
    pool = __import__('oracle.pool', fromlist=['x'])
    pools = {'op': pool.OP, 'ket': pool.KET, 'sop': pool.SOP, 'scalar': pool.SCALAR}
    for nm, p in pools.items():
        for s in p:
            yield case('history', [rng.choice(p)], s)
    tails = ['.expand()', '.dag()', '.diff(x)', '.substitute({x: alpha})', '.simplify_scalar()', '.doit()', '.rebuild()']
    for _ in range(n):
        nm = rng.choice(['op', 'op', 'ket', 'sop', 'scalar'])
        p = pools[nm]
        mk = lambda: (lambda a, b, o: '(%s) %s (%s)' % (a, o, b))(rng.choice(p), rng.choice(p), rng.choice('+*-' if nm != 'ket' else '+-'))
        x = mk()
        if rng.random() < .5:
            x = '(%s)%s' % (x, rng.choice(tails))
        h = [mk() for _ in range(rng.randint(1, 4))]
        if rng.random() < .5:
            h.append('(%s)%s' % (x, rng.choice(tails)))
        yield case('history', h, x)


def chk_distinct(a, b):
    """different expressions stay different whatever was created before"""
    with TC.temporary_instance_cache(Expression):
        x, y, z = raw(a), raw(b), raw(a)
        if isinstance(x, Exception) or isinstance(y, Exception):
            return None
        eq0 = bool(x == y)
    with TC.temporary_instance_cache(Expression):
        y2, x2 = raw(b), raw(a)
    if x != z or not same_result(x, x2, True) or not same_result(y, y2, True) or eq0 != bool(x2 == y2) or eq0 and show(x) != show(y) and 'LocalSpace' not in a:
        return ('bad', '%s and %s are mixed up: %s, %s' % (a, b, show(x), show(y)))
    return None


def register(CHECKS):
    for k, v in list(globals().items()):
        if k.startswith('chk_'):
            CHECKS[k[4:]] = v
