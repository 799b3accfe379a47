"""C16: pattern matching against an independent definition of a match."""
import random

from pyvc import live as L   # noqa: F401
from qnet.algebra.pattern_matching import Pattern, ProtoExpr, pattern_head, MatchDict, match_pattern
from qnet.algebra.core.abstract_algebra import Expression
from . import pool
from .pool import ev, NS
from .misc import case

CONDS = {
    'true': lambda e: True,
    'false': lambda e: False,
    'expr': lambda e: isinstance(e, Expression),
    'noexpr': lambda e: not isinstance(e, Expression),
    'hasargs': lambda e: len(e.args) > 0,       # AttributeError for scalars
    'str': lambda e: isinstance(e, str),
    'short': lambda e: len(str(e)) < 6,
}


def kids(e):
    """arguments, keyword arguments of an expression; None for anything else"""
    try:
        return list(e.args), dict(e.kwargs)
    except AttributeError:
        return None


def args_of(e):
    """also of a SymPy expression"""
    try:
        return list(e.args)
    except AttributeError:
        return None


def at(e, path):
    for p in path:
        e = kids(e)[0][p] if isinstance(p, int) else kids(e)[1][p]
    return e


def build(spec, root):
    if spec[0] == 'part':
        return at(root, spec[1])
    if spec[0] == 'lit':
        return ev(spec[1])
    _, name, mode, head, args, kwargs, conds = spec
    h = None if head is None else tuple(NS_head(x) for x in head) if isinstance(head, list) else NS_head(head)
    return Pattern(h, None if args is None else [build(a, root) for a in args],
                   None if kwargs is None else {k: build(v, root) for k, v in kwargs.items()}, mode=mode, wc_name=name,
                   conditions=[CONDS[c] for c in conds])


def NS_head(x):
    return {'str': str, 'int': int, 'tuple': tuple, 'ProtoExpr': ProtoExpr, 'Expression': Expression}.get(x) or NS[x]


class No(Exception):
    pass


def join(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            if k in out and not same(out[k], v):
                raise No('unequal values of %s' % k)
            out.setdefault(k, v)
    return out


def same(a, b):
    return isinstance(a, list) == isinstance(b, list) and bool(a == b)


def ref(spec, e, root):
    """the bindings of a match; raises No"""
    if spec[0] != 'pat':
        if not bool(build(spec, root) == e):
            raise No('not the same')
        return {}
    _, name, mode, head, args, kwargs, conds = spec
    if head is not None:
        hs = head if isinstance(head, list) else [head]
        if not isinstance(e, tuple(NS_head(h) for h in hs)):
            raise No('head')
    for c in conds:
        try:
            ok = CONDS[c](e)
        except AttributeError:
            ok = False
        if not ok:
            raise No('condition')
    parts = []
    if args is not None:
        ea = args_of(e)
        if ea is None:
            raise No('no arguments')
        multi = [i for i, a in enumerate(args) if a[0] == 'pat' and a[2] > 1]
        if multi:
            i = multi[0]
            after = len(args) - i - 1
            if len(ea) < len(args) - 1 + (args[i][2] == 2):
                raise No('too few')
            lo, hi = i, len(ea) - after
            pairs = list(zip(args[:i], ea[:lo])) + list(zip(args[i + 1:], ea[hi:]))
            seq = args[i]
            one = [seq[0], None, 1] + seq[3:]
            for x in ea[lo:hi]:
                parts.append(ref(one, x, root))
            if seq[1] is not None:
                parts.append({seq[1]: list(ea[lo:hi])})
        else:
            if len(ea) != len(args):
                raise No('number of arguments')
            pairs = list(zip(args, ea))
        for a, x in pairs:
            parts.append(ref(a, x, root))
    if kwargs:
        k = kids(e)
        if k is None:
            raise No('no keyword arguments')
        for key, a in kwargs.items():
            if key not in k[1]:
                raise No('keyword')
            parts.append(ref(a, k[1][key], root))
    if name is not None:
        parts.append({name: [e] if mode > 1 else e})
    return join(parts)


def inst(spec, b, e, root):
    """the pattern with the wildcards replaced by the matched values"""
    if spec[0] != 'pat':
        return build(spec, root)
    _, name, mode, head, args, kwargs, conds = spec
    if args is None and kwargs is None:
        return b[name] if name is not None and mode == 1 else e
    ea, ek = args_of(e), kids(e)[1] if kids(e) else {}
    if args is None:
        na = ea
    else:
        multi = [i for i, a in enumerate(args) if a[0] == 'pat' and a[2] > 1]
        if multi:
            i = multi[0]
            after = len(args) - i - 1
            mid = b[args[i][1]] if args[i][1] is not None else ea[i:len(ea) - after]
            na = [inst(a, b, x, root) for a, x in zip(args[:i], ea)] + list(mid) + \
                [inst(a, b, x, root) for a, x in zip(args[i + 1:], ea[len(ea) - after:])]
        else:
            na = [inst(a, b, x, root) for a, x in zip(args, ea)]
    nk = dict(ek)
    for k, a in (kwargs or {}).items():
        nk[k] = inst(a, b, ek[k], root)
    if isinstance(e, ProtoExpr):
        return ProtoExpr(na, nk)
    return type(e)(*na, **nk)


def equal(a, b):
    if isinstance(a, ProtoExpr):
        return a.args == b.args and dict(a.kwargs) == dict(b.kwargs)
    return bool(a == b)


def subject(src, proto):
    e = ev(src)
    return ProtoExpr.from_expr(e) if proto else e


def chk_match(src, proto, spec):
    root = subject(src, proto)
    p = build(spec, root)
    try:
        want = ref(spec, root, root)
    except No as x:
        want, why = None, str(x)
    try:
        m = match_pattern(p, root)
    except Exception as x:
        return 'bad', 'matching raised %s: %s' % (type(x).__name__, x)
    if bool(m) != (want is not None):
        return 'bad', 'match reported %s (%s), but the pattern %s' % (bool(m), m.reason, 'matches with %r' % (want,) if want is not None else
                                                                      'does not match: ' + why)
    if want is None:
        return None if m.reason else ('bad', 'a failed match without reason')
    if set(m) != set(want) or any(not same(m[k], want[k]) for k in want):
        return 'bad', 'bindings %r instead of %r' % (dict(m), want)
    if not want == dict(m.items()) or len(m) != len(want):
        return 'bad', 'bindings %r of length %d' % (dict(m), len(m))
    if spec[0] == 'pat':
        if not equal(inst(spec, m, root, root), root):
            return 'bad', 'substituting %r for the wildcards does not give the expression' % (dict(m),)
        if set(want) - p.wc_names:
            return 'bad', 'wc_names %r' % (p.wc_names,)
    return None


def walk(e):
    if isinstance(e, (str, tuple, list)):
        return
    k = kids(e)
    if k is not None:
        for x in k[0] + list(k[1].values()):
            yield x
            if not isinstance(x, (str, tuple, list)):
                yield from walk(x)


def chk_findall(src, spec):
    root = ev(src)
    p = build(spec, root)

    def post(e):
        for x in list(getattr(e, 'args', ())) + (list(e.kwargs.values()) if hasattr(e, 'kwargs') else []):
            yield from post(x)
        try:
            yield e, ref(spec, e, root)
        except No:
            pass
    want = list(post(root))
    got = p.findall(root)
    its = list(p.finditer(root))
    if len(got) != len(want) or any(not equal(a, b[0]) for a, b in zip(got, want)):
        return 'bad', 'findall gives %r instead of %r' % (got, [w[0] for w in want])
    if len(its) != len(want) or any(dict(a) != b[1] for a, b in zip(its, want)):
        return 'bad', 'finditer gives %r instead of %r' % (its, [w[1] for w in want])
    return None


def chk_rules(src, specs):
    """the first rule that matches and does not give up is used, with the matched values"""
    from qnet.algebra.core.algebraic_properties import match_replace
    from qnet.algebra.core.exceptions import CannotSimplify
    from collections import OrderedDict
    root = subject(src, True)

    class Cls:
        _rules = OrderedDict()
    want = None
    for n, (spec, refuse) in enumerate(specs):
        p = build(spec, root)

        def repl(_n=n, _refuse=refuse, **kw):
            if _refuse:
                raise CannotSimplify
            return ('rule', _n, kw)
        repl._n = n
        Cls._rules['r%d' % n] = (p, repl)
        if want is None and not refuse:
            try:
                want = ('rule', n, ref(spec, root, root))
            except No:
                pass
    got = match_replace(Cls, root.args, root.kwargs)
    if want is None:
        ok = isinstance(got, tuple) and len(got) == 2 and list(got[0]) == list(root.args) and dict(got[1]) == dict(root.kwargs)
        return None if ok else ('bad', 'no rule matches, but the result is %r' % (got,))
    if not (isinstance(got, tuple) and len(got) == 3 and got[:2] == want[:2] and got[2] == want[2]):
        return 'bad', 'result %r instead of %r' % (got, want)
    return None


# ------------------------------------------------------------------ generation

NAMES = ['A', 'B', 'C', 'u', 'v']


def gen(rng, e, path, depth):
    r = rng.random()
    if r < .12 and path:
        return ['part', list(path)]
    if r < .15:
        return ['lit', rng.choice(['1', '2', '"A"', 'IdentityOperator', 'alpha', 'q1', 'OperatorSymbol("A", hs=q1)'])]
    k = kids(e) if not isinstance(e, (str, tuple, list)) else None
    head = None
    if rng.random() < .4:
        c = type(e)
        ok = [x.__name__ for x in c.__mro__ if x.__name__ in NS and NS[x.__name__] is x] + \
            (['str'] if isinstance(e, str) else ['ProtoExpr'] if isinstance(e, ProtoExpr) else [])
        x = rng.random()
        bad = ['OperatorPlus', 'LocalSpace', 'KetSymbol', 'ScalarValue', 'str', 'int']
        head = rng.choice(ok) if ok and x < .8 else rng.choice(bad) if x < .9 or not ok else [rng.choice(bad), rng.choice(ok)]
    conds = [rng.choice(list(CONDS)) for _ in range(rng.choice([0, 0, 0, 0, 1, 2]))]
    if rng.random() < .7:
        conds = [c for c in conds if c != 'false']
    name = rng.choice(NAMES + [None])
    args = kwargs = None
    if k is not None and depth > 0 and rng.random() < .75:
        if rng.random() < .85:
            ea = k[0]
            mode = rng.choice([0, 0, 2, 3])
            if mode:
                left = rng.random() < .5
                take = rng.randrange(0, len(ea) + 1)
                if rng.random() < .8 and len(ea):
                    take = max(1, take)
                rest = list(range(take, len(ea))) if left else list(range(0, len(ea) - take))
                singles = [gen(rng, ea[i], path + [i], depth - 1) for i in rest]
                sample = ea[0 if left else -1] if ea else e
                s = gen(rng, sample, path + [0 if left else len(ea) - 1], depth - 1) if rng.random() < .5 and ea else \
                    ['pat', rng.choice(NAMES), 1, None, None, None, []]
                if s[0] != 'pat':
                    s = ['pat', rng.choice(NAMES), 1, None, None, None, []]
                s[2] = mode
                args = [s] + singles if left else singles + [s]
            else:
                args = [gen(rng, x, path + [i], depth - 1) for i, x in enumerate(ea)]
            x = rng.random()
            if x < .06 and args:
                del args[rng.randrange(len(args))]
            elif x < .12:
                pos = rng.randrange(len(args) + 1)
                args.insert(pos, ['pat', rng.choice(NAMES), 1, None, None, None, []])
            multi = [i for i, a in enumerate(args) if a[0] == 'pat' and a[2] > 1]
            for i in multi:
                if 0 < i < len(args) - 1:
                    args[i][2] = 1
        if k[1] and rng.random() < .7:
            kwargs = {}
            for key, v in k[1].items():
                if rng.random() < .8:
                    kwargs[key] = gen(rng, v, path + [key], depth - 1)
            if rng.random() < .05:
                kwargs['nokey'] = ['pat', 'A', 1, None, None, None, []]
    return ['pat', name, 1, head, args, kwargs, conds]


EXTRA = ['OperatorSymbol("A", hs=q1) + OperatorSymbol("B", hs=q1)', 'OperatorSymbol("A", hs=q1)*OperatorSymbol("A", hs=q1)*OperatorSymbol("B", hs=q1)',
         'OperatorSymbol("A", hs=q1)*OperatorSymbol("A", hs=q1)', '2*(OperatorSymbol("A", hs=q1) + OperatorSymbol("B", hs=q2))',
         'OperatorSymbol("A", hs=q1)*(OperatorSymbol("A", hs=q1) + OperatorSymbol("B", hs=q1))', 'Commutator.create(OperatorSymbol("A", hs=q1), OperatorSymbol("B", hs=q1))',
         'Concatenation.create(CircuitSymbol("C", cdim=2), CircuitSymbol("C", cdim=2), CPermutation.create((1, 0)))',
         'SeriesProduct.create(CircuitSymbol("C", cdim=2), CircuitSymbol("D", cdim=2), CircuitSymbol("C", cdim=2))',
         'q1*q2*q3', 'OperatorSymbol("A", x, x, alpha, hs=q1)', 'OperatorSymbol("A", x, hs=q1)', 'KetSymbol("Psi", x, x, hs=q1)']


def bare(s):
    """no name in a sub-pattern of the literal kind"""
    return s


def match_cases(rng, n):
    srcs = pool.OP + pool.KET + pool.SOP + pool.SCALAR + EXTRA * 4
    for t in range(n):
        src = rng.choice(srcs)
        proto = rng.random() < .3
        try:
            e = subject(src, proto)
            spec = gen(rng, e, [], rng.choice([1, 2, 3]))
            build(spec, e)
        except Exception:
            continue
        yield case('match', src, proto, spec)


def find_cases(rng, n):
    srcs = pool.OP + pool.KET + EXTRA * 3
    for t in range(n):
        src = rng.choice(srcs)
        try:
            e = ev(src)
            subs = [x for x in walk(e)] or [e]
            x = rng.choice(subs)
            spec = gen(rng, x, [], 1)
            for a in (spec[4] or []):
                if a[0] == 'part':
                    a[:] = ['pat', 'Q', 1, None, None, None, []]
            for k, a in (spec[5] or {}).items():
                if a[0] == 'part':
                    a[:] = ['pat', 'Q', 1, None, None, None, []]
            if 'hasargs' in str(spec):
                continue
            build(spec, e)
        except Exception:
            continue
        yield case('findall', src, spec)


def rule_cases(rng, n):
    for t in range(n):
        src = rng.choice(EXTRA + pool.OP)
        try:
            e = subject(src, True)
            specs = []
            for _ in range(rng.choice([1, 2, 3])):
                s = gen(rng, e, [], 2)
                if s[0] != 'pat':
                    continue
                s[1] = None
                build(s, e)
                specs.append([s, rng.random() < .25])
            if not specs:
                continue
        except Exception:
            continue
        yield case('match_rules', src, specs)


def chk_wc(text, name, mode):
    """the name and mode of a wildcard"""
    from qnet.algebra.pattern_matching import wc
    try:
        p = wc(text)
    except ValueError:
        return None if mode is None else ('bad', 'wc(%r) is rejected' % text)
    if mode is None:
        return 'bad', 'wc(%r) is accepted' % text
    if (p.wc_name, p.mode) != (name, mode):
        return 'bad', 'wc(%r) has name %r and mode %r' % (text, p.wc_name, p.mode)
    if (p.head, p.args, p.kwargs, list(p.conditions)) != (None, None, None, []):
        return 'bad', 'wc(%r) is not a plain wildcard' % text
    return None


def chk_wc_parts(text):
    """wc, pattern, pattern_head pass their parts on"""
    from qnet.algebra.pattern_matching import wc, pattern
    from qnet.algebra.core.operator_algebra import OperatorTimes
    a, b = wc('a'), wc('b__')
    c = [lambda e: True]
    for p, want in ((wc('X__', head=OperatorTimes, args=[a, b], kwargs={'k': a}, conditions=c), (OperatorTimes, (a, b), {'k': a}, 'X', 2, c)),
                    (pattern(OperatorTimes, a, b, mode=3, wc_name='Y', conditions=c, k=a), (OperatorTimes, (a, b), {'k': a}, 'Y', 3, c)),
                    (pattern(OperatorTimes), (OperatorTimes, None, None, None, 1, [])),
                    (pattern_head(a, b, conditions=c, k=a), (ProtoExpr, (a, b), {'k': a}, None, 1, c))):
        got = (p.head, p.args, p.kwargs, p.wc_name, p.mode, p.conditions)
        if any(x is not y and x != y for x, y in zip(got, want)):
            return 'bad', 'parts %r instead of %r' % (got, want)
    return None


def chk_bad(args, ok):
    """at most one sequence wildcard, first or last"""
    spec = ['pat', None, 1, None, [['pat', None, m, None, None, None, []] for m in args], None, []]
    try:
        build(spec, None)
    except ValueError:
        return ('bad', 'rejected') if ok else None
    return None if ok else ('bad', 'a pattern with the modes %r is accepted' % (args,))


def make_cases():
    for text, name, mode in (('A', 'A', 1), ('A_', 'A', 1), ('A__', 'A', 2), ('A___', 'A', 3), ('_', None, 1), ('__', None, 2), ('___', None, 3),
                             ('', None, 1), ('Ab1__', 'Ab1', 2), ('A____', None, None), ('A_b', None, None), ('A b', None, None), ('x1', 'x1', 1)):
        yield case('wc', text, name, mode)
    yield case('wc_parts', '')
    import itertools
    for k in range(5):
        for ms in itertools.product((1, 2, 3), repeat=k):
            multi = [i for i, m in enumerate(ms) if m > 1]
            yield case('modes', list(ms), len(multi) == 0 or len(multi) == 1 and multi[0] in (0, k - 1))


def register(CHECKS):
    CHECKS.update(wc=chk_wc, wc_parts=chk_wc_parts, modes=chk_bad)
    CHECKS.update(match=chk_match, findall=chk_findall, match_rules=chk_rules)
