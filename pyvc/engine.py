"""pyvc core: paths, symbolic values, and the AST symbolic executor.

A verification task is a Python function task(ctx) that builds symbolic inputs,
executes a real function of /repo (its AST, extracted on this run) and posts
obligations with ctx.prove*.  The task is re-executed once per path; nested
generic executions (one arbitrary element of a list of unknown length, one
arbitrary loop iteration) explore their own paths inside a path.
"""
import ast
import copy
import builtins
import functools
import operator
import time
import types

import z3

from . import nc
from .nc import P
from .source import node_of, unwrap, where


class Unsupported(Exception):
    """construct outside the subset: the function is undecided, not wrong"""


class Infeasible(Exception):
    """the current path cannot happen"""


class PathEnd(Infeasible):
    """the path is complete (end of an arbitrary loop iteration): its
    obligations count"""


class PyRaise(Exception):
    """the interpreted program raised"""

    def __init__(self, exc_type, msg='', value=None):
        super().__init__('%s: %s' % (getattr(exc_type, '__name__', exc_type), msg))
        self.exc_type, self.msg, self.value = exc_type, msg, value


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ values

class Sym:
    """base class of symbolic values"""


class SInt(Sym):
    def __init__(self, t):
        self.t = t if not isinstance(t, int) else z3.IntVal(t)

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SymStr(Sym):
    """an unknown string (messages, renderings): only identity matters"""

    def __init__(self, name='str'):
        self.name = name


class Elem:
    """one concrete position in a sequence"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Seg:
    """a run of unknown length.  `gen(ctx, tag)` makes a generic element."""

    def __init__(self, name, gen, rev=False, n=None):
        self.name, self.gen, self.rev = name, gen, rev
        self.n = n if n is not None else z3.Int('len_' + name)
        self.known = {}

    def reversed(self):
        c = copy.copy(self)
        c.rev = not self.rev
        return c


class MSeg:
    """image of a Seg under a comprehension body: list of path results
    (undo-able facts installer, kind, value) for a generic element."""

    def __init__(self, base, elem, results, rev=False):
        self.base, self.elem, self.results, self.rev = base, elem, results, rev

    @property
    def n(self):
        if all(r.kind == 'keep' for r in self.results):
            return self.base.n
        return None

    def reversed(self):
        c = copy.copy(self)
        c.rev = not self.rev
        return c


class Seq(Sym):
    """python list/tuple/generator whose chunks are Elem/Seg/MSeg"""

    def __init__(self, chunks, kind='list'):
        self.chunks, self.kind = list(chunks), kind

    def __repr__(self):
        return '%s%r' % (self.kind, [c.v if isinstance(c, Elem) else c for c in self.chunks])

    def concrete(self):
        return all(isinstance(c, Elem) for c in self.chunks)

    def values(self):
        if not self.concrete():
            raise Unsupported('sequence of unknown length')
        return [c.v for c in self.chunks]


class SDict(Sym):
    """dict {value: value} with concrete entries (keys compared by path fork)"""

    def __init__(self, items=()):
        self.items = list(items)
        self.acc = None


class PathResult:
    def __init__(self, decisions, kind, value, facts):
        self.decisions, self.kind, self.value, self.facts = decisions, kind, value, facts


class IFunc:
    """closure created by interpreted code"""

    def __init__(self, node, env, interp, name, defaults, kwdefaults):
        self.node, self.env, self.interp, self.name = node, env, interp, name
        self.defaults, self.kwdefaults = defaults, kwdefaults

    def __call__(self, *a, **k):       # when handed to native code (e.g. reduce)
        return self.interp.call(self, list(a), dict(k))


class BoundMethod:
    def __init__(self, obj, name, func=None):
        self.obj, self.name, self.func = obj, name, func

    def __repr__(self):
        return '<bound %s of %r>' % (self.name, self.obj)


class SuperProxy:
    def __init__(self, obj, cls, is_cls=False):
        self.obj, self.cls, self.is_cls = obj, cls, is_cls


class Obligation:
    __slots__ = ('name', 'ok', 'how', 'detail', 'secs', 'path', 'status')

    def __init__(self, name, ok, how, detail='', secs=0.0, path='', status=''):
        self.name, self.ok, self.how, self.detail = name, ok, how, detail
        self.secs, self.path, self.status = secs, path, status


# ------------------------------------------------------------------ contexts

MAX_PATHS = 3000


class Ctx:
    def __init__(self, task_name):
        self.task_name = task_name
        self.prefix = []
        self.pos = 0
        self.decisions = []          # (choice, n)
        self.labels = []
        self.solver = z3.Solver()
        self.base_timeout = 4000
        self.solver.set('timeout', 4000)
        self.trail = []
        self.sub = {}                # letter/atom key -> P (definitions, equalities)
        self.obligations = []
        self.counter = 0
        self.nested = 0
        self.assumed = set()
        self.inlined = set()
        self.contracts_used = set()
        self.solver_secs = 0.0
        self.frames = []
        self.level_stack = []

    # ---- names
    def fresh(self, base):
        self.counter += 1
        return '%s#%d' % (base, self.counter)

    # ---- undo
    def mark(self):
        self.solver.push()
        return len(self.trail)

    def undo(self, m):
        while len(self.trail) > m:
            self.trail.pop()()
        self.solver.pop()

    def set_attr(self, obj, name, value):
        d = obj.__dict__
        had, old = name in d, d.get(name)

        def back():
            if had:
                d[name] = old
            else:
                d.pop(name, None)
        self.trail.append(back)
        d[name] = value

    def set_item(self, d, k, value):
        had, old = k in d, d.get(k)

        def back():
            if had:
                d[k] = old
            else:
                d.pop(k, None)
        self.trail.append(back)
        d[k] = value

    # ---- facts
    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.solver.add(f)

    def feasible(self, f):
        t = time.time()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        self.solver_secs += time.time() - t
        return r != z3.unsat

    def entails(self, f):
        t = time.time()
        self.solver.push()
        self.solver.add(z3.Not(f))
        r = self.solver.check()
        self.solver.pop()
        self.solver_secs += time.time() - t
        return r == z3.unsat

    # ---- forks
    def choose(self, n, label=''):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.decisions.append((c, n))
        self.labels.append('%s=%d' % (label, c))
        return c

    def branch(self, cond, label=''):
        """python truth of a z3 condition"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        t, f = self.feasible(cond), self.feasible(z3.Not(cond))
        if t and f:
            c = self.choose(2, label or str(cond)[:60])
            if c == 0:
                self.assume(cond)
                return True
            self.assume(z3.Not(cond))
            return False
        if t:
            return True
        if f:
            return False
        raise Infeasible()

    # ---- nested exploration (generic element / generic iteration)
    def explore(self, fn):
        """all paths of fn() inside the current path; the state is restored
        after each.  Returns [PathResult]; use with_path to re-enter one."""
        saved = (self.prefix, self.pos, self.decisions, self.labels)
        results = []
        stack = [[]]
        count = self.counter
        maxc = count
        while stack:
            pre = stack.pop()
            self.prefix, self.pos, self.decisions, self.labels = pre, 0, [], list(saved[3])
            m = self.mark()
            self.counter = count
            self.nested += 1
            try:
                v = fn()
                kind = 'ok'
            except PathEnd:
                v, kind = None, None
            except Infeasible:
                v, kind = None, None
            except PyRaise as e:
                v, kind = e, 'raise'
            except _Return as r:
                v, kind = r.v, 'return'
            except _Break:
                v, kind = None, 'break'
            except _Continue:
                v, kind = None, 'continue'
            finally:
                self.nested -= 1
            dec = self.decisions
            if kind is not None:
                results.append(PathResult([d for d, _ in dec], kind, v, self.labels[len(saved[3]):]))
            maxc = max(maxc, self.counter)
            self.undo(m)
            for i in range(len(pre), len(dec)):
                c, n = dec[i]
                for alt in range(c + 1, n):
                    stack.append([d for d, _ in dec[:i]] + [alt])
            if len(results) > MAX_PATHS:
                raise Unsupported('too many nested paths')
        self.counter = maxc
        self.prefix, self.pos, self.decisions, self.labels = saved
        self._replay_counter = count
        for r in results:
            r.counter = count
        return results

    def with_path(self, fn, r, body):
        """re-run fn along nested path r, then body(value), then restore"""
        saved = (self.prefix, self.pos, self.decisions, self.labels, self.counter)
        self.prefix, self.pos, self.decisions, self.labels = list(r.decisions), 0, [], list(self.labels)
        self.counter = r.counter
        m = self.mark()
        self.nested += 1
        obl = self.obligations
        self.obligations = []        # obligations of fn were posted already
        try:
            try:
                v = fn()
            except (PyRaise, _Return, _Break, _Continue) as e:
                v = e.v if isinstance(e, _Return) else e
            self.obligations = obl
            self.counter = max(self.counter, saved[4])
            return body(v)
        finally:
            self.obligations = obl
            self.nested -= 1
            cnt = self.counter
            self.undo(m)
            self.prefix, self.pos, self.decisions, self.labels = saved[:4]
            self.counter = max(cnt, saved[4])

    def path_str(self):
        return ' & '.join(self.labels[-12:])


class TaskResult:
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.paths = 0
        self.status = 'proved'       # proved / failed / undecided
        self.reason = ''
        self.inlined = set()
        self.contracts_used = set()
        self.secs = 0.0
        self.solver_secs = 0.0
        self.extract = ''

    def failed(self):
        return [o for o in self.obligations if not o.ok]


def run_task(name, task, max_paths=MAX_PATHS, time_limit=60.0):
    """explore all paths of task(ctx); returns TaskResult"""
    res = TaskResult(name)
    t0 = time.time()
    stack = [[]]
    while stack:
        pre = stack.pop()
        nc.reset()
        ctx = Ctx(name)
        ctx.prefix = pre
        ctx.deadline = t0 + time_limit
        try:
            task(ctx)
            ended = True
        except PathEnd:
            ended = True
        except Infeasible:
            ended = False
        except Unsupported as e:
            res.status, res.reason = 'undecided', 'outside the subset: %s' % e
            ended = True
        except PyRaise as e:
            ended = True
            res.obligations.append(Obligation(
                name + ': no unexpected exception', False, 'path', str(e), path=ctx.path_str(),
                status='refuted'))
        except RecursionError:
            res.status, res.reason = 'undecided', 'recursion limit'
            ended = True
        res.solver_secs += ctx.solver_secs
        res.inlined |= ctx.inlined
        res.contracts_used |= ctx.contracts_used
        if ended:
            res.paths += 1
            res.obligations.extend(ctx.obligations)
        dec = ctx.decisions
        for i in range(len(pre), len(dec)):
            c, n = dec[i]
            for alt in range(c + 1, n):
                stack.append([d for d, _ in dec[:i]] + [alt])
        if res.paths > max_paths or time.time() - t0 > time_limit:
            res.status, res.reason = 'undecided', 'path/time limit'
            break
        if res.status == 'undecided':
            break
    bad = res.failed()
    if bad:
        if any(o.status == 'refuted' for o in bad):
            res.status = 'failed'
        elif res.status == 'proved':
            res.status = 'undecided'
            res.reason = 'not discharged: ' + '; '.join(sorted({o.name for o in bad}))[:300]
    if res.status == 'proved' and not res.obligations:
        res.status, res.reason = 'undecided', 'no obligations generated (vacuous)'
    res.secs = time.time() - t0
    return res


# ------------------------------------------------------------------ interpreter

_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
        ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
        ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
        ast.MatMult: operator.matmul}
_BINNAME = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
            ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&',
            ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@'}
_CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
        ast.Gt: operator.gt, ast.GtE: operator.ge}
_CMPNAME = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}


class Env:
    def __init__(self, names, parent, globs):
        self.names, self.parent, self.globs = names, parent, globs
        self.globals_decl = set()
        self.nonlocals = set()

    def lookup(self, k):
        e = self
        while e is not None:
            if k in e.names:
                v = e.names[k]
                return v
            e = e.parent
        if k in self.globs:
            return self.globs[k]
        if hasattr(builtins, k):
            return getattr(builtins, k)
        raise PyRaise(NameError, k)


def is_sym(v):
    """contains a symbolic part"""
    if isinstance(v, (Sym, IFunc, BoundMethod, SuperProxy)):
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(is_sym(x) for x in v)
    if isinstance(v, dict):
        return any(is_sym(x) for x in v.values()) or any(is_sym(x) for x in v)
    return False


class Interp:
    """subclass hooks: domain.* supply object-level contracts"""

    def __init__(self, ctx, domain):
        self.ctx, self.dom = ctx, domain
        domain.attach(self)
        self.depth = 0
        self.steps = 0

    # ---------------------------------------------------------- functions
    def call_python(self, func, args, kwargs, self_cls=None):
        """inline a live Python function: interpret its AST from /repo"""
        f = unwrap(func) if not isinstance(func, types.FunctionType) else func
        try:
            node = node_of(f)
        except (LookupError, OSError, AttributeError) as e:
            raise Unsupported('no source: %s' % e)
        self.ctx.inlined.add(where(f))
        names = {}
        if f.__closure__:
            for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    names[nm] = cell.cell_contents
                except ValueError:
                    pass
        env = Env(names, None, f.__globals__)
        return self._call_node(node, env, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {},
                               f.__name__, owner=self_cls)

    def _call_node(self, node, env, args, kwargs, defaults, kwdefaults, name, owner=None):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('inlining depth exceeded in %s' % name)
        try:
            local = Env(self._bind(node, args, kwargs, defaults, kwdefaults, name), env, env.globs)
            local.func_name = name
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, local)
            if self.is_generator(node):
                return self._run_generator(node, local)
            try:
                self.exec_block(node.body, local)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def _bind(self, node, args, kwargs, defaults, kwdefaults, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        names = {}
        args = list(args)
        kwargs = dict(kwargs)
        if isinstance(args, list) and any(isinstance(x, _Star) for x in args):
            # a segment may only land in *args
            flat = []
            for x in args:
                if isinstance(x, _Star):
                    flat.extend(x.seq.chunks)
                else:
                    flat.append(Elem(x))
            head = []
            while len(head) < len(pos) and flat and isinstance(flat[0], Elem):
                head.append(flat.pop(0).v)
            if len(head) < len(pos) and flat:
                raise Unsupported('segment bound to named parameter of %s' % name)
            args = head
            rest = Seq(flat, 'tuple')
        else:
            rest = None
        for i, p in enumerate(pos):
            if i < len(args):
                names[p] = args[i]
            elif p in kwargs:
                names[p] = kwargs.pop(p)
            else:
                j = i - (len(pos) - len(defaults))
                if j < 0:
                    raise PyRaise(TypeError, '%s() missing argument %s' % (name, p))
                names[p] = defaults[j]
        extra = args[len(pos):]
        if a.vararg:
            if rest is not None:
                names[a.vararg.arg] = rest if not rest.concrete() else tuple(rest.values())
            else:
                names[a.vararg.arg] = tuple(extra)
        elif extra or (rest is not None and rest.chunks):
            raise PyRaise(TypeError, '%s() takes %d positional arguments' % (name, len(pos)))
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kwargs:
                names[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                names[x.arg] = kwdefaults[x.arg]
            else:
                raise PyRaise(TypeError, '%s() missing keyword argument %s' % (name, x.arg))
        for k in list(kwargs):
            if k in pos:
                raise PyRaise(TypeError, '%s() got multiple values for %s' % (name, k))
        if a.kwarg:
            names[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyRaise(TypeError, '%s() got unexpected keyword %s' % (name, sorted(kwargs)))
        return names

    _gen_cache = {}

    def is_generator(self, node):
        k = id(node)
        if k not in self._gen_cache:
            found = False
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    found = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            self._gen_cache[k] = (found, node)
        return self._gen_cache[k][0]

    def _run_generator(self, node, env):
        """eager evaluation of a generator into a sequence"""
        out = []
        env.yields = out
        try:
            self.exec_block(node.body, env)
        except _Return:
            pass
        if any(not isinstance(c, Elem) for c in out):
            return Seq(out, 'list')
        return [c.v for c in out]

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('step limit')
        if self.steps % 256 == 0 and time.time() > getattr(self.ctx, 'deadline', 1e18):
            raise Unsupported('time limit')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, env)

    def x_Expr(self, s, env):
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Return(self, s, env):
        raise _Return(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise _Break()

    def x_Continue(self, s, env):
        raise _Continue()

    def x_Global(self, s, env):
        env.globals_decl.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.bind(t.id, self.binop(type(s.op), cur, self.eval(s.value, env), inplace=True), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(type(s.op), cur, self.eval(s.value, env), inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(type(s.op), cur, self.eval(s.value, env), inplace=True))
        else:
            raise Unsupported('augmented assignment')

    def bind(self, name, v, env):
        if name in env.globals_decl:
            return self.dom.set_global(env, name, v)
        e = env
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.names:
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal')
        self.ctx.set_item(e.names, name, v)

    def lookup(self, name, env):
        if name in env.globals_decl:
            return self.dom.get_global(env, name)
        return env.lookup(name)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v, env):
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        seq = self.to_seq(v)
        n = len(elts)
        if stars:
            i = stars[0]
            after = n - i - 1
            for e in elts[:i]:
                h, seq = self.seq_pop(seq, 0, ValueError)
                self.assign(e, h, env)
            tail = []
            for _ in range(after):
                h, seq = self.seq_pop(seq, -1, ValueError)
                tail.insert(0, h)
            mid = Seq(seq.chunks, 'list')
            self.assign(elts[i].value, mid.values() if mid.concrete() else mid, env)
            for e, h in zip(elts[i + 1:], tail):
                self.assign(e, h, env)
            return
        vals = []
        for _ in range(n):
            h, seq = self.seq_pop(seq, 0, ValueError)
            vals.append(h)
        if seq.chunks:
            if not self.seq_is_empty(seq):
                raise PyRaise(ValueError, 'too many values to unpack')
        for e, h in zip(elts, vals):
            self.assign(e, h, env)

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise(AssertionError, '')

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(env, 'handling', None)
            e = env
            while cur is None and e is not None:
                cur = getattr(e, 'handling', None)
                e = e.parent
            if cur is not None:
                raise cur
            raise Unsupported('bare raise')
        v = self.eval(s.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v)
        if isinstance(v, BaseException):
            raise PyRaise(type(v), str(v), v)
        if isinstance(v, _ExcVal):
            raise PyRaise(v.cls, 'raised', v)
        raise Unsupported('raise of %r' % (v,))

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        types_ = (BaseException,)
                    else:
                        types_ = self.eval(h.type, env)
                        if not isinstance(types_, tuple):
                            types_ = (types_,)
                    if any(issubclass(e.exc_type, t) for t in types_):
                        if h.name:
                            self.bind(h.name, e.value if e.value is not None else _ExcVal(e.exc_type), env)
                        old = getattr(env, 'handling', None)
                        env.handling = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            env.handling = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            if s.finalbody:
                import sys
                et = sys.exc_info()[0]
                if et is None or issubclass(et, (PyRaise, _Return, _Break, _Continue)):
                    self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        return self.dom.with_stmt(self, s, env)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, env), [f], {})
        self.bind(s.name, f, env)

    def make_func(self, node, env, name):
        defaults = tuple(self.eval(d, env) for d in node.args.defaults)
        kwd = {a.arg: self.eval(d, env) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return IFunc(node, env, self, name, defaults, kwd)

    def x_Import(self, s, env):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for part in a.name.split('.')[1:]:
                    m = getattr(m, part)
                self.bind(a.asname, m, env)
            else:
                self.bind(a.name.split('.')[0], m, env)

    def x_ImportFrom(self, s, env):
        import importlib
        pkg = env.globs.get('__package__') or env.globs.get('__name__', '').rpartition('.')[0]
        name = '.' * s.level + (s.module or '')
        m = importlib.import_module(name, pkg) if s.level else importlib.import_module(name)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                v = importlib.import_module(m.__name__ + '.' + a.name)
            self.bind(a.asname or a.name, v, env)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Name):
                names = env.names
                old = names[t.id]
                self.ctx.trail.append(lambda: names.__setitem__(t.id, old))
                del names[t.id]
            else:
                raise Unsupported('del')

    def x_While(self, s, env):
        hook = self.dom.loop_hook(self, s, env)
        if hook is not None:
            return hook()
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > 64:
                raise Unsupported('while loop without invariant (unrolled 64 times)')
            try:
                self.exec_block(s.body, env)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.exec_block(s.orelse, env)

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        hook = self.dom.for_hook(self, s, env, it)
        if hook is not None:
            return hook()
        for v in self.iter_concrete(it):
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.exec_block(s.orelse, env)

    def iter_concrete(self, it):
        if isinstance(it, Seq):
            if not it.concrete():
                raise Unsupported('loop over a sequence of unknown length without summary')
            return list(it.values())
        if isinstance(it, SDict):
            return [k for k, _ in it.items]
        if isinstance(it, Sym):
            s = self.dom.iterate(self, it)
            if isinstance(s, Seq):
                return self.iter_concrete(s)
            return s
        if isinstance(it, dict):
            return list(it)
        try:
            out = []
            for i, x in enumerate(it):
                if i > 5000:
                    raise Unsupported('long native iteration')
                out.append(x)
            return out
        except TypeError as e:
            raise PyRaise(TypeError, str(e))

    # ---------------------------------------------------------- expressions
    def eval(self, e, env):
        self.steps += 1
        if self.steps % 512 == 0 and time.time() > getattr(self.ctx, 'deadline', 1e18):
            raise Unsupported('time limit')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return self._display(e, env, 'tuple')

    def e_List(self, e, env):
        return self._display(e, env, 'list')

    def _display(self, e, env, kind):
        chunks = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                chunks.extend(self.to_seq(self.eval(x.value, env)).chunks)
            else:
                chunks.append(Elem(self.eval(x, env)))
        if all(isinstance(c, Elem) for c in chunks):
            vals = [c.v for c in chunks]
            return tuple(vals) if kind == 'tuple' else vals
        return Seq(chunks, kind)

    def e_Set(self, e, env):
        vals = [self.eval(x, env) for x in e.elts]
        return self.make_set(vals)

    def make_set(self, vals):
        if not is_sym(vals):
            return set(vals)
        return self.dom.make_set(self, vals)

    def e_Dict(self, e, env):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, env)
                if not isinstance(d, dict):
                    raise Unsupported('** in dict display')
                items.extend(d.items())
            else:
                items.append((self.eval(k, env), self.eval(v, env)))
        if any(is_sym(k) for k, _ in items):
            return SDict(items)
        return dict(items)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if is_sym(x) or v.format_spec is not None or v.conversion not in (-1, 115):
                    return SymStr()
                parts.append(str(x))
        return ''.join(parts)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values[:-1]:
            v = self.eval(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And):
                if not t:
                    return v if not isinstance(v, SBool) else False
            elif t:
                return v if not isinstance(v, SBool) else True
        return self.eval(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt):
                return SInt(-v.t)
            if isinstance(v, Sym):
                return self.dom.unary(self, '-', v)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and not isinstance(v, Sym):
            return ~v
        raise Unsupported('unary op')

    def e_BinOp(self, e, env):
        return self.binop(type(e.op), self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b, inplace=False):
        name = _BINNAME[op]
        if name == '%' and isinstance(a, str):
            if is_sym(b):
                return SymStr()
            try:
                return a % b
            except Exception:
                return SymStr()
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return SymStr()
        if isinstance(a, (Seq, list, tuple)) and isinstance(b, (Seq, list, tuple)) and name == '+' \
                and (isinstance(a, Seq) or isinstance(b, Seq)):
            ka = a.kind if isinstance(a, Seq) else type(a).__name__
            kb = b.kind if isinstance(b, Seq) else type(b).__name__
            if ka != kb and not inplace:
                raise PyRaise(TypeError, 'can only concatenate %s to %s' % (kb, ka))
            r = Seq(self.to_seq(a).chunks + self.to_seq(b).chunks, ka)
            if inplace and isinstance(a, Seq) and ka == 'list':
                self.ctx.set_attr(a, 'chunks', r.chunks)
                return a
            return r
        if isinstance(a, SInt) or isinstance(b, SInt):
            if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) \
                    and not isinstance(a, bool) and not isinstance(b, bool):
                return self.int_binop(name, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            r = self.dom.binop(self, name, a, b)
            if r is NotImplemented:
                raise PyRaise(TypeError, 'unsupported operand types for %s' % name)
            return r
        if isinstance(a, list) and inplace and name == '+':
            new = a + self.iter_concrete(b)
            old = list(a)

            def back(a=a, old=old):
                a[:] = old
            self.ctx.trail.append(back)
            a[:] = new
            return a
        if is_sym(a) or is_sym(b):
            if isinstance(a, (list, tuple)) and (isinstance(b, type(a)) and name == '+' or
                                                 isinstance(b, int) and name == '*'):
                return _BIN[op](a, b)
            r = self.dom.binop(self, name, a, b)
            if r is NotImplemented:
                raise PyRaise(TypeError, 'unsupported operand types for %s' % name)
            return r
        r = self.dom.native_binop(self, name, a, b)
        if r is not NotImplemented:
            return r
        try:
            return _BIN[op](a, b)
        except Exception as x:
            raise PyRaise(type(x), str(x), x)

    def int_binop(self, name, a, b):
        x = a.t if isinstance(a, SInt) else z3.IntVal(a)
        y = b.t if isinstance(b, SInt) else z3.IntVal(b)
        if name == '+':
            return SInt(z3.simplify(x + y))
        if name == '-':
            return SInt(z3.simplify(x - y))
        if name == '*':
            return SInt(x * y)
        if name in ('//', '%'):
            if not (isinstance(b, int) and b > 0):
                raise Unsupported('symbolic division')
            return SInt(x / y if name == '//' else x % y)
        if name == '**' and isinstance(b, int) and b in (0, 1, 2):
            return SInt([z3.IntVal(1), x, x * x][b])
        raise Unsupported('int op %s' % name)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, env)
            res = self.compare(type(op), left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            r = self.is_(a, b)
            return r if op is ast.Is else self._not(r)
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if op is ast.In else self._not(r)
        name = _CMPNAME[op]
        if isinstance(a, bool):
            a2 = a
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and (isinstance(a, SInt) or isinstance(b, SInt)):
            x = a.t if isinstance(a, SInt) else z3.IntVal(int(a))
            y = b.t if isinstance(b, SInt) else z3.IntVal(int(b))
            return SBool({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[name])
        if name in ('==', '!='):
            r = self.equal(a, b)
            return r if name == '==' else self._not(r)
        if is_sym(a) or is_sym(b):
            return self.dom.compare(self, name, a, b)
        try:
            return _CMP[op](a, b)
        except Exception as x:
            raise PyRaise(type(x), str(x), x)

    def _not(self, r):
        if isinstance(r, SBool):
            return SBool(z3.Not(r.t))
        return not r

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and (isinstance(a, SInt) or isinstance(b, SInt)):
            return SBool(z3.simplify((a.t if isinstance(a, SInt) else z3.IntVal(int(a))) == (b.t if isinstance(b, SInt) else z3.IntVal(int(b)))))
        if isinstance(a, SBool) or isinstance(b, SBool):
            x = a.t if isinstance(a, SBool) else a
            y = b.t if isinstance(b, SBool) else b
            if isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)):
                return SBool(x == y)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (is_sym(a) or is_sym(b)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.equal(x, y)):
                    return False
            return True
        if isinstance(a, Seq) or isinstance(b, Seq):
            return self.dom.seq_equal(self, a, b)
        if is_sym(a) or is_sym(b):
            return self.dom.equal(self, a, b)
        try:
            return a == b
        except Exception as x:
            raise PyRaise(type(x), str(x), x)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is None or b is None:
                other = b if a is None else a
                return self.dom.is_none(self, other)
            return self.dom.is_(self, a, b)
        return a is b

    def contains(self, c, x):
        if isinstance(c, Seq):
            return self.dom.seq_contains(self, c, x)
        if isinstance(c, SDict):
            for k, _ in c.items:
                if self.truth(self.equal(k, x)):
                    return True
            return self.dom.dict_contains(self, c, x) if c.acc is not None else False
        if isinstance(c, Sym):
            return self.dom.contains(self, c, x)
        if is_sym(x) or is_sym(c):
            if isinstance(c, (list, tuple, dict)):
                for k in list(c):
                    if self.truth(self.equal(k, x)):
                        return True
                return False
            if isinstance(c, (set, frozenset)):
                for k in sorted(c, key=str):
                    if self.truth(self.equal(k, x)):
                        return True
                return False
            return self.dom.contains(self, c, x)
        try:
            return x in c
        except Exception as e:
            raise PyRaise(type(e), str(e), e)

    def truth(self, v):
        if isinstance(v, SBool):
            return self.ctx.branch(v.t)
        if isinstance(v, SInt):
            return self.ctx.branch(v.t != 0)
        if isinstance(v, Seq):
            return not self.seq_is_empty(v)
        if isinstance(v, SDict):
            return bool(v.items) if v.acc is None else self.dom.truth(self, v)
        if isinstance(v, Sym):
            return self.dom.truth(self, v)
        if isinstance(v, (list, tuple, dict, set, str, IFunc, BoundMethod)) or v is None:
            return bool(v) if not isinstance(v, (IFunc, BoundMethod)) else True
        try:
            return bool(v)
        except Exception as e:
            raise PyRaise(type(e), str(e), e)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr, env)

    def getattr(self, o, name, env=None):
        if isinstance(o, Seq):
            return BoundMethod(o, name)
        if isinstance(o, (SDict, SInt)):
            return BoundMethod(o, name)
        if isinstance(o, SuperProxy):
            return self.dom.super_attr(self, o, name)
        if isinstance(o, SymStr):
            return BoundMethod(o, name)
        if isinstance(o, Sym):
            return self.dom.getattr(self, o, name)
        if isinstance(o, (IFunc,)):
            if name == '__name__':
                return o.name
            raise PyRaise(AttributeError, name)
        if isinstance(o, _ExcVal):
            return SymStr()
        r = self.dom.native_getattr(self, o, name)
        if r is not NotImplemented:
            return r
        if isinstance(o, (list, dict, set, tuple)) and not isinstance(o, type):
            return BoundMethod(o, name)
        try:
            return getattr(o, name)
        except AttributeError as x:
            raise PyRaise(AttributeError, str(x))
        except Exception as x:
            raise PyRaise(type(x), str(x), x)

    def setattr(self, o, name, v):
        if isinstance(o, Sym):
            return self.dom.setattr(self, o, name, v)
        return self.dom.native_setattr(self, o, name, v)

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

    def e_Slice(self, e, env):
        f = lambda x: self.eval(x, env) if x is not None else None
        return slice(f(e.lower), f(e.upper), f(e.step))

    def getitem(self, o, i):
        if isinstance(o, Seq):
            return self.seq_getitem(o, i)
        if isinstance(o, SDict):
            for k, v in o.items:
                if self.truth(self.equal(k, i)):
                    return v
            if o.acc is not None:
                return self.dom.dict_get(self, o, i)
            raise PyRaise(KeyError, str(i))
        if isinstance(o, Sym):
            return self.dom.getitem(self, o, i)
        if isinstance(i, slice) and (isinstance(i.start, Sym) or isinstance(i.stop, Sym)):
            raise Unsupported('symbolic slice of a concrete sequence')
        if isinstance(i, SInt):
            if isinstance(o, (list, tuple)):
                for k in range(len(o)):
                    if self.ctx.branch(i.t == k):
                        return o[k]
                for k in range(1, len(o) + 1):
                    if self.ctx.branch(i.t == -k):
                        return o[-k]
                raise PyRaise(IndexError, 'index')
            raise Unsupported('symbolic index')
        if is_sym(i):
            if isinstance(o, dict):
                for k, v in o.items():
                    if self.truth(self.equal(k, i)):
                        return v
                raise PyRaise(KeyError, str(i))
            raise Unsupported('symbolic subscript')
        try:
            return o[i]
        except Exception as x:
            raise PyRaise(type(x), str(x), x)

    def setitem(self, o, i, v):
        if isinstance(o, list):
            if isinstance(i, SInt):
                for k in range(len(o)):
                    if self.ctx.branch(i.t == k):
                        i = k
                        break
                else:
                    raise PyRaise(IndexError, 'list assignment index')
            old = list(o)

            def back(o=o, old=old):
                o[:] = old
            self.ctx.trail.append(back)
            try:
                o[i] = v
            except Exception as x:
                raise PyRaise(type(x), str(x), x)
            return
        if isinstance(o, dict) and not is_sym(i):
            self.ctx.set_item(o, i, v) if type(o) in (dict,) else self._odict_set(o, i, v)
            return
        if isinstance(o, SDict):
            items = list(o.items)
            for n, (k, _) in enumerate(items):
                if self.truth(self.equal(k, i)):
                    items[n] = (k, v)
                    self.ctx.set_attr(o, 'items', items)
                    return
            if o.acc is not None and self.dom.dict_set(self, o, i, v):
                return
            items.append((i, v))
            self.ctx.set_attr(o, 'items', items)
            return
        self.dom.setitem(self, o, i, v)

    def _odict_set(self, o, i, v):
        old = list(o.items())

        def back(o=o, old=old):
            o.clear()
            o.update(old)
        self.ctx.trail.append(back)
        o[i] = v

    def delitem(self, o, i):
        if isinstance(o, list):
            old = list(o)

            def back(o=o, old=old):
                o[:] = old
            self.ctx.trail.append(back)
            del o[i]
            return
        if isinstance(o, dict) and not is_sym(i):
            if i not in o:
                raise PyRaise(KeyError, str(i))
            old = list(o.items())

            def back(o=o, old=old):
                o.clear()
                o.update(old)
            self.ctx.trail.append(back)
            del o[i]
            return
        self.dom.delitem(self, o, i)

    # ---------------------------------------------------------- sequences
    def to_seq(self, v):
        if isinstance(v, Seq):
            return v
        if isinstance(v, (list, tuple)):
            return Seq([Elem(x) for x in v], type(v).__name__ if type(v) in (list, tuple) else 'tuple')
        if isinstance(v, dict):
            return Seq([Elem(x) for x in v], 'list')
        if isinstance(v, SDict):
            if v.acc is not None:
                return self.dom.dict_keys(self, v)
            return Seq([Elem(k) for k, _ in v.items], 'list')
        if isinstance(v, Sym):
            s = self.dom.iterate(self, v)
            if isinstance(s, Seq):
                return s
            return Seq([Elem(x) for x in s], 'list')
        return Seq([Elem(x) for x in self.iter_concrete(v)], 'list')

    def seg_split(self, seg, end):
        """case split of a segment: empty, or one element at `end` plus the
        rest.  Returns None or (elem, restchunks)."""
        if isinstance(seg, MSeg):
            return self.dom.mseg_split(self, seg, end)
        c = self.ctx.branch(seg.n > 0, 'nonempty(%s)' % seg.name)
        self.ctx.assume(seg.n >= 0)
        if not c:
            self.dom.seg_empty(self, seg)
            return None
        return self.dom.seg_uncons(self, seg, end)

    def seq_is_empty(self, seq):
        chunks = list(seq.chunks)
        if not chunks:
            return True
        if any(isinstance(c, Elem) for c in chunks):
            return False
        for c in chunks:
            if isinstance(c, MSeg):
                if not self.dom.mseg_is_empty(self, c):
                    return False
                continue
            self.ctx.assume(c.n >= 0)
            if self.ctx.branch(c.n > 0, 'nonempty(%s)' % c.name):
                return False
            self.dom.seg_empty(self, c)
        return True

    def seq_pop(self, seq, end, exc=IndexError):
        """(value, rest) at the left (0) or right (-1) end"""
        chunks = list(seq.chunks)
        while chunks:
            c = chunks[0] if end == 0 else chunks[-1]
            if isinstance(c, Elem):
                rest = chunks[1:] if end == 0 else chunks[:-1]
                return c.v, Seq(rest, seq.kind)
            r = self.seg_split(c, end)
            if r is None:
                chunks = chunks[1:] if end == 0 else chunks[:-1]
                continue
            v, rest = r
            if end == 0:
                return v, Seq(list(rest) + chunks[1:], seq.kind)
            return v, Seq(chunks[:-1] + list(rest), seq.kind)
        raise PyRaise(exc, 'empty sequence')

    def seq_len(self, seq):
        n = 0
        t = None
        for c in seq.chunks:
            if isinstance(c, Elem):
                n += 1
            else:
                m = c.n
                if m is None:
                    m = self.dom.mseg_len(self, c)
                self.ctx.assume(m >= 0)
                t = m if t is None else t + m
        if t is None:
            return n
        return SInt(z3.simplify(t + n))

    def seq_getitem(self, seq, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if i.step == -1 and i.start is None and i.stop is None:
                    return self.seq_reversed(seq)
                raise Unsupported('slice step')
            lo, hi = i.start, i.stop
            if isinstance(lo, Sym) or isinstance(hi, Sym):
                return self.dom.seq_split_at(self, seq, lo, hi)
            cur = seq
            if lo is None:
                lo = 0
            if lo < 0 or (hi is not None and hi >= 0 and not (lo == 0)):
                if not (lo >= 0 and hi is not None and hi >= 0):
                    raise Unsupported('slice form')
            if lo >= 0:
                for _ in range(lo):
                    if self.seq_is_empty(cur):
                        break
                    _, cur = self.seq_pop(cur, 0)
            if hi is None:
                return self._norm(Seq(cur.chunks, seq.kind))
            if hi < 0:
                for _ in range(-hi):
                    if self.seq_is_empty(cur):
                        break
                    _, cur = self.seq_pop(cur, -1)
                return self._norm(Seq(cur.chunks, seq.kind))
            out = []
            for _ in range(hi - lo):
                if self.seq_is_empty(cur):
                    break
                v, cur = self.seq_pop(cur, 0)
                out.append(Elem(v))
            return self._norm(Seq(out, seq.kind))
        if isinstance(i, SInt):
            return self.dom.seq_index(self, seq, i)
        if not isinstance(i, int):
            raise Unsupported('index %r' % (i,))
        if i >= 0:
            cur = seq
            for _ in range(i):
                _, cur = self.seq_pop(cur, 0)
            v, _ = self.seq_pop(cur, 0)
            return v
        cur = seq
        for _ in range(-i - 1):
            _, cur = self.seq_pop(cur, -1)
        v, _ = self.seq_pop(cur, -1)
        return v

    def _norm(self, seq):
        if seq.concrete():
            v = seq.values()
            return tuple(v) if seq.kind == 'tuple' else v
        return seq

    def seq_reversed(self, seq):
        out = []
        for c in reversed(seq.chunks):
            out.append(c if isinstance(c, Elem) else c.reversed())
        return self._norm(Seq(out, seq.kind))

    # ---------------------------------------------------------- comprehensions
    def e_ListComp(self, e, env):
        r = self.comprehend(e.elt, e.generators, env)
        return self._norm(Seq(r, 'list'))

    def e_GeneratorExp(self, e, env):
        return self._norm(Seq(self.comprehend(e.elt, e.generators, env), 'list'))

    def e_SetComp(self, e, env):
        r = Seq(self.comprehend(e.elt, e.generators, env), 'list')
        if r.concrete() and not is_sym(r.values()):
            return set(r.values())
        return self.dom.make_set(self, r.values() if r.concrete() else r)

    def e_DictComp(self, e, env):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        r = Seq(self.comprehend(pair, e.generators, env), 'list')
        if not r.concrete():
            return self.dom.dict_from_seq(self, r)
        d = SDict()
        items = r.values()
        if any(is_sym(k) for k, _ in items):
            for k, v in items:
                self.setitem(d, k, v)
            return d
        return dict(items)

    def comprehend(self, elt, gens, env):
        g = gens[0]
        it = self.eval(g.iter, env)
        seq = self.to_seq(it)
        if len(gens) > 1 and any(not isinstance(c, Elem) for c in seq.chunks):
            # independent runs: the comprehension over their cartesian product
            bound = set()
            its = [seq]
            for a, b in zip(gens, gens[1:]):
                bound |= {n.id for n in ast.walk(a.target) if isinstance(n, ast.Name)}
                if a.ifs or any(isinstance(n, ast.Name) and n.id in bound for n in ast.walk(b.iter)):
                    raise Unsupported('nested comprehension over unknown length')
                its.append(self.eval(b.iter, env))
            tup = ast.Tuple(elts=[a.target for a in gens], ctx=ast.Store())
            g = ast.comprehension(target=tup, iter=None, ifs=gens[-1].ifs, is_async=0)
            gens = [g]
            seq = self.to_seq(self.dom.product_seqs(self, its))
        out = []
        for c in seq.chunks:
            if isinstance(c, Elem):
                sub = Env({}, env, env.globs)
                sub.yields = getattr(env, 'yields', None)
                self.assign(g.target, c.v, sub)
                if all(self.truth(self.eval(t, sub)) for t in g.ifs):
                    if len(gens) > 1:
                        out.extend(self.comprehend(elt, gens[1:], sub))
                    else:
                        out.append(Elem(self.eval(elt, sub)))
            else:
                if len(gens) > 1:
                    raise Unsupported('nested comprehension over unknown length')
                out.append(self.map_segment(c, elt, g, env))
        return out

    def map_segment(self, seg, elt, g, env):
        def body(v):
            sub = Env({}, env, env.globs)
            self.assign(g.target, v, sub)
            for t in g.ifs:
                if not self.truth(self.eval(t, sub)):
                    return ('drop', None)
            return ('keep', self.eval(elt, sub))
        return self.map_seg(seg, body)

    def map_seg(self, seg, body):
        """generic image of one arbitrary element; body(value) -> (kind, v)"""
        if isinstance(seg, MSeg):
            inner = seg

            def run():
                kind, v = inner.run()
                if kind == 'drop':
                    return ('drop', None)
                return body(v)
            base = inner.base
        else:
            base = seg

            def run():
                return body(base.gen(self.ctx, base))
        results = self.ctx.explore(run)
        for r in results:
            if r.kind == 'raise':
                # some element raises: the whole comprehension may raise
                if self.ctx.choose(2, 'elem-raises') == 1:
                    raise r.value
            elif r.kind != 'ok':
                raise Unsupported('control flow out of comprehension')
        good = [r for r in results if r.kind == 'ok']
        for r in good:
            r.kind, r.value = r.value
        m = MSeg(base, None, good, rev=seg.rev)
        m.run = run
        return m

    # ---------------------------------------------------------- calls
    def e_Call(self, e, env):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.dom.make_super(self, env)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.eval(a.value, env)
                if self.dom.keep_star(s):
                    args.append(_Star(s))
                    continue
                s = self.to_seq(s)
                if s.concrete():
                    args.extend(s.values())
                else:
                    args.append(_Star(s))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, dict):
                    kwargs.update(d)
                else:
                    kwargs.update(self.dom.as_kwargs(self, d))
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        if f is locals and not args:
            return dict(env.names)
        return self.call(f, args, kwargs)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        self._yield_env(env).append(Elem(v))
        return None

    def e_YieldFrom(self, e, env):
        self._yield_env(env).extend(self.to_seq(self.eval(e.value, env)).chunks)
        return None

    def _yield_env(self, env):
        while env is not None:
            if getattr(env, 'yields', None) is not None:
                return env.yields
            env = env.parent
        raise Unsupported('yield')

    def call(self, f, args, kwargs):
        if isinstance(f, IFunc):
            return self._call_node(f.node, f.env, args, kwargs, f.defaults, f.kwdefaults, f.name)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, BoundMethod):
            return self.call_method(f, args, kwargs)
        b = _BUILTINS.get(f) if _hashable(f) else None
        if b is not None:
            r = b(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(f, Sym):
            return self.dom.call_value(self, f, args, kwargs)
        r = self.dom.call(self, f, args, kwargs)
        if r is not NotImplemented:
            return r
        if isinstance(f, types.MethodType):
            if self.dom.should_inline(self, f.__func__):
                return self.call_python(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, types.FunctionType) and self.dom.should_inline(self, f):
            return self.call_python(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return _ExcVal(f) if is_sym(args) else self._native(f, args, kwargs)
        if is_sym(args) or is_sym(kwargs) or any(isinstance(a, _Star) for a in args):
            raise Unsupported('call of %r with symbolic arguments' % (getattr(f, '__qualname__', f),))
        return self._native(f, args, kwargs)

    def _native(self, f, args, kwargs):
        try:
            return f(*args, **kwargs)
        except (Unsupported, Infeasible, PyRaise, _Return):
            raise
        except Exception as x:
            raise PyRaise(type(x), str(x), x)

    def call_method(self, m, args, kwargs):
        o, name = m.obj, m.name
        if isinstance(o, Seq):
            return self.seq_method(o, name, args, kwargs)
        if isinstance(o, SDict):
            return self.sdict_method(o, name, args, kwargs)
        if isinstance(o, SymStr):
            return SymStr() if name not in ('startswith', 'endswith') else self.dom.unknown_bool(self, name)
        if isinstance(o, SInt):
            if name == 'conjugate':
                return o
            raise PyRaise(AttributeError, name)
        if isinstance(o, (list, dict, set, tuple)):
            return self.native_container_method(o, name, args, kwargs)
        return self.dom.call_method(self, m, args, kwargs)

    def native_container_method(self, o, name, args, kwargs):
        ctx = self.ctx
        if isinstance(o, list) and name in ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'clear'):
            old = list(o)

            def back(o=o, old=old):
                o[:] = old
            ctx.trail.append(back)
            if name == 'extend':
                s = self.to_seq(args[0])
                if not s.concrete():
                    raise Unsupported('extend with unknown length')
                o.extend(s.values())
                return None
            if name == 'remove' and is_sym(o + list(args)):
                for i, x in enumerate(o):
                    if self.truth(self.equal(x, args[0])):
                        del o[i]
                        return None
                raise PyRaise(ValueError, 'remove')
            if name == 'sort' and is_sym(o):
                new = self.call(sorted, [list(o)], kwargs)
                o[:] = new
                return None
            if name == 'sort' and kwargs:
                o[:] = self.call(sorted, [list(o)], kwargs)
                return None
            return self._native(getattr(o, name), args, kwargs)
        if isinstance(o, (list, tuple)) and name in ('index', 'count') and is_sym(list(o) + list(args)):
            n = 0
            for i, x in enumerate(o):
                if self.truth(self.equal(x, args[0])):
                    if name == 'index':
                        return i
                    n += 1
            if name == 'index':
                raise PyRaise(ValueError, 'not in list')
            return n
        if isinstance(o, dict):
            if name in ('setdefault', 'update', 'pop', 'popitem', 'clear', 'move_to_end'):
                if name == 'update' and args and isinstance(args[0], SDict):
                    raise Unsupported('update with symbolic keys')
                old = list(o.items())

                def back(o=o, old=old):
                    o.clear()
                    for k, v in old:
                        o[k] = v
                ctx.trail.append(back)
            elif name == 'get' and is_sym(args[0]):
                for k, v in o.items():
                    if self.truth(self.equal(k, args[0])):
                        return v
                return args[1] if len(args) > 1 else None
            elif name == 'copy':
                return o.copy()
            r = self._native(getattr(o, name), args, kwargs)
            return list(r) if name in ('keys', 'values', 'items') else r
        if isinstance(o, set) and name in ('add', 'update', 'discard', 'remove', 'pop', 'clear', 'difference_update',
                                           'intersection_update'):
            if is_sym(args) or any(isinstance(a, _Star) for a in args):
                return self.dom.set_method(self, o, name, args, kwargs)
            old = set(o)

            def back(o=o, old=old):
                o.clear()
                o.update(old)
            ctx.trail.append(back)
            return self._native(getattr(o, name), args, kwargs)
        if is_sym(args) or any(isinstance(a, _Star) for a in args):
            return self.dom.set_method(self, o, name, args, kwargs)
        return self._native(getattr(o, name), args, kwargs)

    def seq_method(self, o, name, args, kwargs):
        ctx = self.ctx
        if o.kind == 'list':
            if name == 'append':
                ctx.set_attr(o, 'chunks', o.chunks + [Elem(args[0])])
                return None
            if name == 'extend':
                ctx.set_attr(o, 'chunks', o.chunks + self.to_seq(args[0]).chunks)
                return None
            if name == 'insert' and args[0] == 0:
                ctx.set_attr(o, 'chunks', [Elem(args[1])] + o.chunks)
                return None
            if name == 'pop':
                end = 0 if args and args[0] == 0 else -1
                if args and args[0] not in (0, -1):
                    raise Unsupported('pop(i)')
                v, rest = self.seq_pop(o, end)
                ctx.set_attr(o, 'chunks', rest.chunks)
                return v
            if name == 'copy':
                return Seq(o.chunks, 'list')
        r = self.dom.seq_method(self, o, name, args, kwargs)
        if r is NotImplemented:
            raise Unsupported('sequence method %s' % name)
        return r

    def sdict_method(self, o, name, args, kwargs):
        if o.acc is not None:
            r = self.dom.dict_method(self, o, name, args, kwargs)
            if r is not NotImplemented:
                return r
        if name == 'items':
            return [(k, v) for k, v in o.items]
        if name == 'keys':
            return [k for k, _ in o.items]
        if name == 'values':
            return [v for _, v in o.items]
        if name == 'get':
            for k, v in o.items:
                if self.truth(self.equal(k, args[0])):
                    return v
            return args[1] if len(args) > 1 else None
        if name == 'copy':
            return SDict(o.items)
        if name == 'setdefault':
            for k, v in o.items:
                if self.truth(self.equal(k, args[0])):
                    return v
            self.setitem(o, args[0], args[1] if len(args) > 1 else None)
            return args[1] if len(args) > 1 else None
        raise Unsupported('dict method %s' % name)


class _Star:
    def __init__(self, seq):
        self.seq = seq


class _ExcVal:
    """an exception instance with symbolic message"""

    def __init__(self, cls):
        self.cls = cls


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


# ------------------------------------------------------------------ builtins

def _b_len(I, args, kw):
    o = args[0]
    if isinstance(o, Seq):
        return I.seq_len(o)
    if isinstance(o, SDict):
        if o.acc is None:
            return len(o.items)
        return I.dom.length(I, o)
    if isinstance(o, Sym):
        return I.dom.length(I, o)
    if isinstance(o, (list, tuple, dict, set, str)):
        return len(o)
    return NotImplemented


def _b_isinstance(I, args, kw):
    o, c = args
    if isinstance(c, tuple):
        for x in _flatten(c):
            if I.truth(_b_isinstance(I, [o, x], {})):
                return True
        return False
    if isinstance(o, Seq):
        return {'list': list, 'tuple': tuple}[o.kind] is c or c is object or \
            getattr(c, '__name__', '') in ('Sequence', 'Iterable', 'Collection')
    if isinstance(o, SDict):
        return c in (dict, object) or getattr(c, '__name__', '') in ('Mapping', 'OrderedDict', 'MutableMapping')
    if isinstance(o, SInt):
        return c in (int, object)
    if isinstance(o, SBool):
        return c in (bool, int, object)
    if isinstance(o, SymStr):
        return c in (str, object)
    if isinstance(o, (IFunc, BoundMethod)):
        return False
    if isinstance(o, Sym):
        return I.dom.isinstance(I, o, c)
    if isinstance(c, Sym) or not isinstance(c, type):
        raise PyRaise(TypeError, 'isinstance() arg 2 must be a type')
    return isinstance(o, c)


def _flatten(t):
    for x in t:
        if isinstance(x, tuple):
            yield from _flatten(x)
        else:
            yield x


def _b_tuple(I, args, kw):
    if not args:
        return ()
    s = I.to_seq(args[0])
    return tuple(s.values()) if s.concrete() else Seq(s.chunks, 'tuple')


def _b_list(I, args, kw):
    if not args:
        return []
    s = I.to_seq(args[0])
    return list(s.values()) if s.concrete() else Seq(s.chunks, 'list')


def _b_reversed(I, args, kw):
    s = I.to_seq(args[0])
    r = I.seq_reversed(Seq(s.chunks, 'list'))
    return r


def _b_sum(I, args, kw):
    if isinstance(args[0], (set, frozenset)) and not is_sym(args[0]):
        return NotImplemented
    s = I.to_seq(args[0])
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if s.concrete():
        r = start
        for v in s.values():
            r = I.binop(ast.Add, r, v)
        return r
    return I.dom.sum_seq(I, s, start)


def _b_all(I, args, kw):
    s = I.to_seq(args[0])
    if s.concrete():
        for v in s.values():
            if not I.truth(v):
                return False
        return True
    return I.dom.all_seq(I, s)


def _b_any(I, args, kw):
    s = I.to_seq(args[0])
    if s.concrete():
        for v in s.values():
            if I.truth(v):
                return True
        return False
    return I.dom.any_seq(I, s)


def _b_zip(I, args, kw):
    if len(args) == 1 and isinstance(args[0], _Star):
        return I.dom.unzip(I, args[0].seq)
    seqs = [I.to_seq(a) for a in args]
    if all(s.concrete() for s in seqs):
        return list(zip(*[s.values() for s in seqs]))
    return I.dom.zip_seqs(I, seqs)


def _b_enumerate(I, args, kw):
    s = I.to_seq(args[0])
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if s.concrete():
        return list(enumerate(s.values(), start)) if isinstance(start, int) else \
            [(I.int_binop('+', start, i), v) for i, v in enumerate(s.values())]
    return I.dom.enumerate_seq(I, s, start)


def _b_range(I, args, kw):
    if any(isinstance(a, Sym) for a in args):
        return I.dom.sym_range(I, args)
    if all(isinstance(a, int) for a in args):
        return list(range(*args)) if abs(range(*args).__len__()) < 2000 else range(*args)
    return NotImplemented


def _b_sorted(I, args, kw):
    s = I.to_seq(args[0])
    if s.concrete() and not is_sym(s.values()) and not is_sym(kw):
        return NotImplemented
    return I.dom.sorted_seq(I, s, kw)


def _b_hasattr(I, args, kw):
    o, n = args
    try:
        I.getattr(o, n)
        return True
    except PyRaise as e:
        if issubclass(e.exc_type, AttributeError):
            return False
        raise


def _b_getattr(I, args, kw):
    o, n = args[0], args[1]
    if not isinstance(n, str):
        raise Unsupported('getattr with symbolic name')
    try:
        return I.getattr(o, n)
    except PyRaise as e:
        if issubclass(e.exc_type, AttributeError) and len(args) > 2:
            return args[2]
        raise


def _b_setattr(I, args, kw):
    o, n, v = args
    if not isinstance(n, str):
        raise Unsupported('setattr with symbolic name')
    I.setattr(o, n, v)
    return None


def _b_str(I, args, kw):
    if args and is_sym(args[0]):
        r = I.dom.str_of(I, args[0])
        return r
    return NotImplemented


def _b_map(I, args, kw):
    f, *its = args
    if len(its) != 1:
        raise Unsupported('map with several iterables')
    s = I.to_seq(its[0])
    out = []
    for c in s.chunks:
        if isinstance(c, Elem):
            out.append(Elem(I.call(f, [c.v], {})))
        else:
            out.append(I.map_seg(c, lambda v: ('keep', I.call(f, [v], {}))))
    return I._norm(Seq(out, 'list'))


def _b_filter(I, args, kw):
    f, it = args
    s = I.to_seq(it)
    out = []
    for c in s.chunks:
        if isinstance(c, Elem):
            if I.truth(I.call(f, [c.v], {}) if f is not None else c.v):
                out.append(c)
        else:
            out.append(I.map_seg(c, lambda v: ('keep', v) if I.truth(I.call(f, [v], {})) else ('drop', None)))
    return I._norm(Seq(out, 'list'))


def _b_reduce(I, args, kw):
    f, it = args[0], args[1]
    s = I.to_seq(it)
    if not s.concrete():
        return I.dom.reduce_seq(I, f, s, args[2:])
    vals = s.values()
    if len(args) > 2:
        acc = args[2]
    else:
        if not vals:
            raise PyRaise(TypeError, 'reduce of empty')
        acc, vals = vals[0], vals[1:]
    for v in vals:
        acc = I.call(f, [acc, v], {})
    return acc


def _b_int(I, args, kw):
    if args and isinstance(args[0], (SInt,)):
        return args[0]
    if args and isinstance(args[0], SBool):
        return SInt(z3.If(args[0].t, 1, 0))
    if args and isinstance(args[0], Sym):
        return I.dom.to_int(I, args[0])
    return NotImplemented


def _b_bool(I, args, kw):
    if args and is_sym(args[0]):
        return I.truth(args[0])
    return NotImplemented


def _b_abs(I, args, kw):
    if isinstance(args[0], SInt):
        t = args[0].t
        return SInt(z3.If(t >= 0, t, -t))
    return NotImplemented


def _b_minmax(which):
    def f(I, args, kw):
        if len(args) == 1:
            s = I.to_seq(args[0])
            if not s.concrete():
                return I.dom.minmax_seq(I, which, s, kw)
            vals = s.values()
        else:
            vals = list(args)
        if not is_sym(vals) and not is_sym(kw):
            return NotImplemented
        if kw:
            raise Unsupported('min/max with key')
        acc = vals[0]
        for v in vals[1:]:
            less = I.truth(I.compare(ast.Lt, v, acc) if which == 'min' else I.compare(ast.Lt, acc, v))
            if less:
                acc = v
        return acc
    return f


def _b_set(I, args, kw):
    if not args:
        return set()
    if isinstance(args[0], (set, frozenset)):
        return set(args[0])
    if isinstance(args[0], Seq) or is_sym(args[0]):
        if isinstance(args[0], Sym) and not isinstance(args[0], Seq):
            return I.dom.make_set(I, args[0])
        s = I.to_seq(args[0])
        return I.dom.make_set(I, s.values() if s.concrete() else s)
    return NotImplemented


def _b_dict(I, args, kw):
    if args and isinstance(args[0], SDict):
        return SDict(args[0].items)
    if args and isinstance(args[0], Seq):
        return I.dom.dict_from_seq(I, args[0])
    if args and isinstance(args[0], (list, tuple)) and is_sym(args[0]):
        d = SDict()
        for p in args[0]:
            k, v = I.iter_concrete(p)
            I.setitem(d, k, v)
        if not any(is_sym(k) for k, _ in d.items):
            return dict(d.items)
        return d
    return NotImplemented


def _b_print(I, args, kw):
    return None


def _b_type(I, args, kw):
    if len(args) == 1 and isinstance(args[0], Sym):
        return I.dom.type_of(I, args[0])
    return NotImplemented


def _b_id(I, args, kw):
    return NotImplemented


def _b_round(I, args, kw):
    return NotImplemented


def _b_next(I, args, kw):
    s = args[0]
    if isinstance(s, list):
        if s:
            return s[0]
        if len(args) > 1:
            return args[1]
        raise PyRaise(StopIteration)
    return NotImplemented


def _b_iter(I, args, kw):
    if isinstance(args[0], (list, tuple, Seq)):
        return args[0]
    return NotImplemented


def _b_odict(I, args, kw):
    from collections import OrderedDict
    if not args:
        return SDictLike(OrderedDict)
    if isinstance(args[0], (Seq, SDict)) or is_sym(args[0]):
        return _b_dict(I, args, kw)
    return NotImplemented


def SDictLike(_):
    return SDict()


import itertools as _it
from collections import OrderedDict as _OD


def _b_product(I, args, kw):
    rep = kw.get('repeat', 1)
    seqs = []
    for a in args:
        if isinstance(a, _Star):
            return I.dom.product_star(I, a.seq)
        seqs.append(I.to_seq(a))
    if all(s.concrete() for s in seqs):
        return list(_it.product(*[s.values() for s in seqs], repeat=rep))
    return I.dom.product_seqs(I, seqs)


def _b_chain(I, args, kw):
    chunks = []
    for a in args:
        if isinstance(a, _Star):
            raise Unsupported('chain(*unknown)')
        chunks.extend(I.to_seq(a).chunks)
    return I._norm(Seq(chunks, 'list'))


_BUILTINS = {
    len: _b_len, isinstance: _b_isinstance, tuple: _b_tuple, list: _b_list, reversed: _b_reversed,
    sum: _b_sum, all: _b_all, any: _b_any, zip: _b_zip, enumerate: _b_enumerate, range: _b_range,
    sorted: _b_sorted, hasattr: _b_hasattr, getattr: _b_getattr, setattr: _b_setattr, str: _b_str,
    repr: _b_str, map: _b_map, filter: _b_filter, functools.reduce: _b_reduce, int: _b_int,
    bool: _b_bool, abs: _b_abs, min: _b_minmax('min'), max: _b_minmax('max'), set: _b_set,
    frozenset: _b_set, dict: _b_dict, print: _b_print, type: _b_type, _it.product: _b_product,
    next: _b_next, iter: _b_iter, _OD: _b_odict, _it.chain: _b_chain,
}
