"""Bounded cross-checks of the contracts on the real code, and replay.

A case is a small dict of source strings; `run(case)` evaluates it with the
real code and compares with the independent numeric meaning.  Result: None
(agrees), ('skip', why) or ('bad', message)."""
import contextlib
import itertools
import os
import operator
import random

import numpy as np
import sympy

from pyvc import live as L
from pyvc.domain import SPEC
import qnet.algebra.core.algebraic_properties as AP
from . import den as N
from . import pool
from .den import NoDen, Raw, Op, Ket, Sop
from .pool import ev

CRASH = (AttributeError, NameError, IndexError, KeyError, RecursionError, AssertionError, UnboundLocalError,
         ZeroDivisionError)
CLS = {}
for _m in (L.SA, L.OA, L.STA, L.SOA, L.FO, L.SPA, L.PAU, L.HSA):
    for _n in dir(_m):
        _c = getattr(_m, _n)
        if isinstance(_c, type):
            CLS[_n] = _c


def envs(case):
    nf = case.get('nf', N.NF)
    e = N.Env(case.get('seed', 0), nf)
    out = []
    S = pool.NS
    for d in ({S['i']: 0, S['j']: 1, S['k']: 0, S['n']: 1, S['m']: 0}, {S['i']: 1, S['j']: 1, S['k']: 1, S['n']: 0, S['m']: 0}):
        out.append(e.with_(d))
    return out


def expr_args(case):
    return [ev(s) for s in case['args']], {k: ev(v) for k, v in case.get('kwargs', {}).items()}


def _native(x):
    return isinstance(x, (int, float, complex, sympy.Basic))


def lhs_value(case, env):
    """what the operation is specified to mean"""
    k = case['kind']
    args, kw = expr_args(case)
    if k == 'create':
        return N.den_raw(Raw(CLS[case['cls']], args, kw), env)
    if k == 'binop':
        a, b = [N.den(x, env) for x in args]
        return binop_value(case['op'], a, b, env)
    if k == 'unary':
        return unary_value(case['op'], args[0], env, case)
    if k == 'same':
        return N.den(args[0], env)
    raise NoDen(k)


def binop_value(op, a, b, env):
    sc = lambda v: isinstance(v, (int, float, complex, np.number))
    if op in ('+', '-'):
        if op == '-':
            b = N.scale(env, -1, b)
        if isinstance(a, Op) and sc(b):
            b = N.op_const(b)
        if isinstance(b, Op) and sc(a):
            a = N.op_const(a)
        if isinstance(a, Sop) and sc(b):
            b = Sop((), np.array([[b]], complex))
        if isinstance(b, Sop) and sc(a):
            a = Sop((), np.array([[a]], complex))
        if isinstance(a, Ket) and isinstance(b, Ket) and a.spaces and b.spaces and set(a.spaces) != set(b.spaces):
            raise NoDen('states on different spaces')
        return N.plus(env, a, b)
    if op == '*':
        if sc(a):
            return N.scale(env, a, b)
        if sc(b):
            return N.scale(env, b, a)
        if isinstance(a, Op) and isinstance(b, Op):
            return N.op_mul(env, a, b)
        if isinstance(a, Sop) and isinstance(b, Sop):
            return N.sop_mul(env, a, b)
        if isinstance(a, Sop) and isinstance(b, Op):
            return N.sop_apply(env, a, b)
        if isinstance(a, Op) and isinstance(b, Ket) and not b.bra:
            return N.op_ket(env, a, b)
        if isinstance(a, Ket) and isinstance(b, Op) and a.bra:
            return N.op_ket(env, N.op_adj(b), a)
        if isinstance(a, Ket) and isinstance(b, Ket):
            if a.bra and not b.bra:
                if a.spaces is None or b.spaces is None:
                    return 0j
                if set(a.spaces) != set(b.spaces):
                    raise NoDen('inner product across spaces')
                return N.braket(env, a, b)
            if b.bra and not a.bra:
                return N.ketbra(env, a, Ket(b.spaces, b.v))
            return N.ket_mul(env, a, b)
        raise NoDen('product')
    if op == '/':
        if not sc(b):
            raise NoDen('division')
        if b == 0:
            raise NoDen('division by zero')
        return N.scale(env, 1 / b, a)
    if op == '**':
        if sc(a) and sc(b):
            return N.power(complex(a), complex(b))
        if isinstance(a, (Op, Sop)) and sc(b) and b == int(b.real) and b.real >= 0:
            r = N.op_const(1) if isinstance(a, Op) else Sop((), np.ones((1, 1), complex))
            for _ in range(int(b.real)):
                r = N.op_mul(env, r, a) if isinstance(a, Op) else N.sop_mul(env, r, a)
            return r
        raise NoDen('power')
    raise NoDen(op)


BINOP = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '**': operator.pow}
SAME = ('expand', 'simplify_scalar', 'doit', 'rebuild')


def unary_value(op, x, env, case):
    v = N.den(x, env)
    if op in ('adjoint', 'dag', 'conjugate'):
        if isinstance(v, Op):
            return N.op_adj(v)
        if isinstance(v, Sop):
            return N.sop_adj(env, v)
        if isinstance(v, Ket):
            return Ket(v.spaces, v.v, not v.bra)
        return np.conj(v)
    if op in SAME:
        return v
    if op == '-':
        return N.scale(env, -1, v)
    if op == 'diff':
        s = ev(case['sym'])
        return N.derivative(lambda e: N.den(x, e), env, [(s, case.get('n', 1))], [])
    if op == 'substitute':
        m = {ev(a): ev(b) for a, b in case['map']}
        e2 = env.with_({a: N.den_scalar(b, env) for a, b in m.items()})
        return N.den(x, e2)
    if op == 'complex':
        return complex(v)
    raise NoDen(op)


def compute(case):
    """the real code's answer"""
    k = case['kind']
    args, kw = expr_args(case)
    if k == 'create':
        return CLS[case['cls']].create(*args, **kw)
    if k == 'binop':
        return BINOP[case['op']](*args)
    if k == 'same':
        return args[1]
    if k == 'unary':
        op, x = case['op'], args[0]
        if op == '-':
            return -x
        if op == 'diff':
            return x.diff(ev(case['sym']), case.get('n', 1))
        if op == 'substitute':
            return x.substitute({ev(a): ev(b) for a, b in case['map']})
        if op == 'complex':
            return complex(x)
        return getattr(x, op)()
    raise ValueError(k)


def text(case):
    k = case['kind']
    if k in KINDS:
        return KINDS[k][1](case)
    if k == 'create':
        return '%s.create(%s)' % (case['cls'], ', '.join(list(case['args']) + ['%s=%s' % i for i in sorted(case.get('kwargs', {}).items())]))
    if k == 'binop':
        return '(%s) %s (%s)' % (case['args'][0], case['op'], case['args'][1])
    if k == 'same':
        return '%s  ==  %s' % (case['args'][1], case['args'][0])
    if case['op'] == 'diff':
        return '(%s).diff(%s, %s)' % (case['args'][0], case['sym'], case.get('n', 1))
    if case['op'] == 'substitute':
        return '(%s).substitute({%s})' % (case['args'][0], ', '.join('%s: %s' % tuple(x) for x in case['map']))
    return '(%s).%s()' % (case['args'][0], case['op'])


KINDS = {}      # further kinds of cases: kind -> (run, text)


def run(case):
    if case['kind'] in KINDS:
        return KINDS[case['kind']][0](case)
    r = run1(case)
    if r is not None and r[0] == 'bad' and not AP._RESOLVE_KRONECKER_WITH_PIECEWISE:
        # documented assumption: a Kronecker delta summed over an index refers
        # to values inside the range of that index
        AP._RESOLVE_KRONECKER_WITH_PIECEWISE = True
        old = pool.CACHE
        pool.CACHE = {}
        try:
            with empty_caches():
                if run1(case) is None:
                    return ('skip', 'outside the summation range')
        finally:
            AP._RESOLVE_KRONECKER_WITH_PIECEWISE = False
            pool.CACHE = old
    return r


def all_classes(c=None):
    out = set()
    todo = [c or L.AA.Expression]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo.extend(x.__subclasses__())
    return out


@contextlib.contextmanager
def empty_caches():
    saved = [(c, c.__dict__['_instances']) for c in all_classes() if '_instances' in c.__dict__]
    for c, _ in saved:
        c._instances = {}
    try:
        yield
    finally:
        for c, d in saved:
            c._instances = d


def run1(case):
    if 'of' in case:
        # an operand built by a constructor: only where that has a meaning
        try:
            expr_args(case['of'])
            for env in envs(case['of']):
                lhs_value(case['of'], env)
        except Exception as x:
            return ('skip', 'no meaning of the operand')
    try:
        expr_args(case)
    except CRASH as x:
        return ('bad', 'building the operands crashes: %s: %s' % (type(x).__name__, x))
    except Exception as x:
        return ('skip', 'operands: %s' % type(x).__name__)
    wants = []
    for env in envs(case):
        try:
            wants.append((env, lhs_value(case, env)))
        except (NoDen, ValueError, TypeError, OverflowError, IndexError, KeyError, AttributeError) as x:
            if not isinstance(x, NoDen) and case.get('debug'):
                raise
            continue
    if not wants:
        return ('skip', 'no meaning')
    try:
        res = compute(case)
    except CRASH as x:
        return ('bad', 'crashes: %s: %s' % (type(x).__name__, x))
    except Exception as x:
        return ('skip', 'raises %s' % type(x).__name__)
    if res is NotImplemented:
        return ('skip', 'NotImplemented')
    done = 0
    for env, w in wants:
        try:
            got = N.den(res, env) if not isinstance(res, (complex, np.ndarray)) else res
            ok = N.close(env, got, w, case.get('tol', 1e-6))
        except NoDen as x:
            if str(x) in ('ket on different spaces', 'tensor on same space', 'operator acts outside the ket space',
                          'ket + bra', 'ketbra across spaces'):
                return ('bad', 'ill-formed result %r: %s' % (res, x))
            continue
        done += 1
        if not ok:
            return ('bad', 'result %s (%r)\nexpected value %s\nobtained value %s\nfor %s' % (
                res, res, brief(w), brief(got), {str(a): str(b) for a, b in env.over.items()}))
    if not done:
        return ('skip', 'no meaning of the result')
    return None


def brief(v):
    if isinstance(v, (Op, Sop)):
        return '%s %s' % ([str(s) for s in v.spaces], np.array2string(v.m[:4, :4], precision=4))
    if isinstance(v, Ket):
        return 'ket %s %s bra=%s' % ([str(s) for s in v.spaces or ()], np.array2string(v.v[:6], precision=4) if v.v is not None else 0, v.bra)
    return repr(v)


# ------------------------------------------------------------------ generators

OPS_OF = {'op': 'Operator', 'ket': 'Ket', 'sop': 'SuperOperator', 'scalar': 'Scalar'}


def rnd(rng, sort):
    if sort == 'label':
        return rng.choice(pool.LABEL['f1'])
    return rng.choice(pool.POOL[sort])


def create_cases(cls, rng, count, pools=None):
    """arguments drawn from the pools for one class"""
    sp = SPEC[cls]
    P = pools or pool.POOL
    for _ in range(count):
        hs = rng.choice(list(pool.LABEL))
        if cls in ('Create', 'Destroy', 'Phase', 'Displace', 'Squeeze', 'CoherentStateKet'):
            hs = rng.choice(['f1', 'f2'])
        if cls in ('Jz', 'Jplus', 'Jminus'):
            hs = rng.choice(['s1', 's2'])
        args = []
        for n, kind in sp.pos:
            if kind == 'label':
                args.append(rng.choice(pool.LABEL[hs]))
            elif kind == 'native':
                args.append(rng.choice(pool.SCALAR_NATIVE))
            elif kind == 'scalar':
                args.append(rng.choice(P['anyscalar'] if cls.startswith(('Scalar', 'Phase', 'Disp', 'Squ', 'Coh')) else P['scalar']))
            else:
                args.append(rng.choice(P[kind]))
        if sp.var:
            n, kind = sp.var
            k = rng.choice([2, 2, 3, 3, 4]) if kind != 'range' else rng.choice([1, 1, 2])
            args += [rng.choice(P[kind]) for _ in range(k)]
        kw = {}
        for n, kind in sp.kw:
            if kind in ('ls', 'spinls'):
                kw[n] = hs
            elif kind == 'sign':
                kw[n] = rng.choice(['1', '-1'])
            elif kind == 'hs':
                kw[n] = rng.choice(['q1', 'q2', 'q1*q2', 'q3', 'q2*q3', 'q1*q3', 'f1'])
        yield dict(kind='create', cls=cls, args=args, kwargs=kw)


def pair_cases(cls, P, extra=()):
    """every ordered pair of pool members under an n-ary operation"""
    kind = SPEC[cls].var[1]
    for a in P:
        for b in P:
            yield dict(kind='create', cls=cls, args=[a, b])


COH = {'op': pool.OP_COH, 'ket': pool.KET_COH}


def coh_cases():
    for a in pool.OP_COH:
        for b in pool.OP_COH:
            yield dict(kind='create', cls='OperatorTimes', args=[a, b], nf=48, tol=1e-4)
        for b in pool.KET_COH:
            yield dict(kind='create', cls='OperatorTimesKet', args=[a, b], nf=48, tol=1e-4)
        yield dict(kind='unary', op='adjoint', args=[a], nf=48, tol=1e-4)
    for a in pool.KET_COH:
        for b in pool.KET_COH:
            yield dict(kind='create', cls='BraKet', args=[a, b], nf=48, tol=1e-4)
            yield dict(kind='create', cls='KetPlus', args=[a, b], nf=48, tol=1e-4)
            yield dict(kind='create', cls='KetBra', args=[a, b], nf=48, tol=1e-4)


def binop_cases():
    groups = {'op': pool.OP, 'ket': pool.KET, 'sop': pool.SOP, 'scalar': pool.SCALAR}
    for s, P in groups.items():
        for op in '+-*':
            for a in P:
                for b in P:
                    yield dict(kind='binop', op=op, args=[a, b])
    nat = pool.SCALAR_NATIVE + pool.SCALAR
    for s, P in groups.items():
        for a in P:
            for b in nat:
                yield dict(kind='binop', op='*', args=[a, b])
                yield dict(kind='binop', op='*', args=[b, a])
                yield dict(kind='binop', op='/', args=[a, b])
                if s != 'ket':
                    yield dict(kind='binop', op='+', args=[a, b])
                    yield dict(kind='binop', op='-', args=[a, b])
                    yield dict(kind='binop', op='-', args=[b, a])
                    yield dict(kind='binop', op='+', args=[b, a])
                if s == 'scalar':
                    yield dict(kind='binop', op='**', args=[a, b])
                    yield dict(kind='binop', op='**', args=[b, a])
                    yield dict(kind='binop', op='/', args=[b, a])
            for n in ('0', '1', '2', '3'):
                yield dict(kind='binop', op='**', args=[a, n])
    for a in pool.OP:
        for b in pool.KET:
            yield dict(kind='binop', op='*', args=[a, b])
    for a in pool.SOP:
        for b in pool.OP:
            yield dict(kind='binop', op='*', args=[a, b])
    for a in pool.KET:
        for b in pool.KET:
            yield dict(kind='binop', op='*', args=['(%s).dag()' % a, b])
            yield dict(kind='binop', op='*', args=[a, '(%s).dag()' % b])
            yield dict(kind='binop', op='*', args=['(%s).dag()' % a, '(%s).dag()' % b])
            yield dict(kind='binop', op='+', args=['(%s).dag()' % a, '(%s).dag()' % b])
        for b in pool.OP:
            yield dict(kind='binop', op='*', args=['(%s).dag()' % a, b])


def unary_cases():
    groups = {'op': pool.OP, 'ket': pool.KET, 'sop': pool.SOP, 'scalar': pool.SCALAR}
    subs = [('x', '0.3'), ('x', 'y**2'), ('alpha', 'x'), ('alpha', '2'), ('x', 'alpha + y'), ('beta', 'alpha')]
    for s, P in groups.items():
        for a in P + (['(%s).dag()' % b for b in pool.KET] if s == 'ket' else []):
            for op in ('adjoint', '-', 'expand', 'simplify_scalar', 'doit', 'rebuild'):
                if s == 'scalar' and op == 'adjoint':
                    op = 'conjugate'
                yield dict(kind='unary', op=op, args=[a])
            if s == 'scalar':
                yield dict(kind='unary', op='complex', args=[a])
            for sym in ('x',):
                for n in (1, 2):
                    yield dict(kind='unary', op='diff', sym=sym, n=n, args=[a], tol=1e-4)
            for u, v in subs:
                yield dict(kind='unary', op='substitute', map=[(u, v)], args=[a])
            yield dict(kind='unary', op='substitute', map=[('x', 'y'), ('y', 'x')], args=[a])
            yield dict(kind='unary', op='substitute', map=[('i', '1')], args=[a])
            yield dict(kind='unary', op='substitute', map=[('i', 'j')], args=[a])


# ------------------------------------------------------------------ predicates on the real code

CHECKS = {}     # name -> function(*args) -> None | ('skip', why) | ('bad', message)


def run_check(case):
    try:
        return CHECKS[case['check']](*case['args'])
    except NoDen as x:
        return ('skip', 'no meaning: %s' % x)
    except (MemoryError, ImportError):
        raise
    except Exception as x:
        # the predicates handle every documented exception themselves
        import traceback
        tb = traceback.extract_tb(x.__traceback__)
        src = os.path.realpath(os.path.join(L.REPO, 'src'))
        own = os.path.dirname(os.path.realpath(__file__))
        for f in reversed(tb):
            if os.path.realpath(f.filename).startswith(src):
                return ('bad', 'raises %s: %s (%s:%d)' % (type(x).__name__, str(x)[:300], os.path.basename(f.filename), f.lineno))
            if os.path.realpath(f.filename).startswith(own):
                break
        raise


KINDS['check'] = (run_check, lambda c: '%s(%s)' % (c['check'], ', '.join(map(str, c['args']))))


def _load():
    import importlib
    for m in ('circ', 'mat', 'perm', 'hs', 'misc', 'exp', 'pat', 'eqh', 'sub', 'prt'):
        try:
            mod = importlib.import_module('oracle.' + m)
        except ModuleNotFoundError:
            continue
        new = {}
        mod.register(new)
        twice = set(new) & set(CHECKS)
        if twice:
            raise AssertionError('case kinds registered twice: %s' % sorted(twice))
        CHECKS.update(new)


_load()
