"""Loops and comprehensions over runs of unknown length.

A `for` loop over a run is summarised by induction on the number of
iterations: the body is executed once on an arbitrary element with arbitrary
values in the variables it updates, and the update must have one of the forms

    list.append(f(e))            list' = list ++ [f(e) for e in run]
    acc  ->  acc + f(e)          acc'  = acc + sum f(e)
    acc  ->  acc * f(e)          acc'  = acc * prod f(e)
    flag ->  constant            flag' in {flag, constant}

(f(e) not depending on the variables); the equality of the updated value with
that form is decided by the normal form, which is the inductive step.  Anything
else is outside the subset."""
import ast

import z3

from . import nc
from .nc import P, ONE, ZERO
from .engine import Seq, Elem, Seg, MSeg, Unsupported, PyRaise, _Star, is_sym, SInt, SBool, Env, _Break


def stored_names(body):
    out, appended = [], []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.attr in ('append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'setdefault', 'clear'):
                if n.func.attr != 'append':
                    appended.append((n.func.value.id, n.func.attr))
                else:
                    appended.append((n.func.value.id, 'append'))
    return set(out), set(appended)


def targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def for_hook(D, I, s, env, it):
    if not isinstance(it, Seq) or it.concrete():
        return None

    free = _returns(s.body)

    def run_loop():
        if free:
            havoc_loop(D, I, s, env, it)
            I.exec_block(s.orelse, env)
            return
        for c in it.chunks:
            if isinstance(c, Elem):
                I.assign(s.target, c.v, env)
                try:
                    I.exec_block(s.body, env)
                except _Break:
                    raise Unsupported('break in a loop over a run')
            else:
                summarise(D, I, s, env, c)
        I.exec_block(s.orelse, env)
    return run_loop


def _returns(body):
    return any(isinstance(n, (ast.Return, ast.While)) for b in body for n in ast.walk(b))


def havoc(D, I, s, env):
    """arbitrary values for every variable the loop assigns"""
    names, apps = stored_names(s.body)
    if apps:
        raise Unsupported('loop with early exit updates %s' % sorted(apps))
    if isinstance(s, ast.For):
        names -= targets(s.target)
    for n in sorted(names):
        if n not in env.names:
            continue
        v = env.names[n]
        if isinstance(v, Opaque):
            continue
        o = D.lift(v) if not isinstance(v, (bool, str, list, dict, tuple)) and v is not None else None
        if o is None:
            raise Unsupported('loop with early exit updates %s' % n)
        I.ctx.set_item(env.names, n, D.fresh_sort(I.ctx.fresh(n + "~"), o.sort))


def havoc_loop(D, I, s, env, it=None):
    """the Hoare rule with the invariant `true`: an arbitrary iteration may
    return (or raise); a path that merely falls through is covered by the next
    iteration or by the exit"""
    from .engine import _Break, _Continue, Infeasible
    ctx = I.ctx
    if it is None:
        n = 2
        runs = None
    else:
        runs = it.chunks
        n = 1 + len(runs)
    i = ctx.choose(n, 'loop exit or iteration')
    havoc(D, I, s, env)
    if i == 0:
        if it is None and I.truth(I.eval(s.test, env)):
            raise Infeasible()
        for nm in targets(s.target) if it is not None else ():
            ctx.set_item(env.names, nm, Opaque(nm))
        return
    if it is None:
        if not I.truth(I.eval(s.test, env)):
            raise Infeasible()
    else:
        c = runs[i - 1]
        if isinstance(c, Elem):
            v = c.v
        elif isinstance(c, Seg):
            v = c.gen(ctx, c)
        else:
            raise Unsupported('loop with early exit over a computed run')
        I.assign(s.target, v, env)
    try:
        I.exec_block(s.body, env)
    except _Continue:
        raise Infeasible()
    except _Break:
        return
    raise Infeasible()


def while_hook(D, I, s, env):
    from .domain import Obj
    names, apps = stored_names(s.body)
    if any(isinstance(env.names.get(n), Obj) and env.names[n].sort in ('hs', 'op', 'ket') for n in names):
        return lambda: havoc_loop(D, I, s, env)
    return None


class Opaque:
    def __init__(self, why):
        self.why = why


def summarise(D, I, s, env, seg):
    from .domain import Obj
    ctx = I.ctx
    names, apps = stored_names(s.body)
    tg = targets(s.target)
    names |= tg
    bad = [n for n, k in apps if k != 'append']
    if bad:
        raise Unsupported('loop over a run updates %s' % bad)
    lists = sorted({n for n, _ in apps})
    accs = sorted(n for n in names if n not in tg and n in env.names and n not in lists)
    old = {n: env.names[n] for n in accs}
    olists = {}
    for n in lists:
        v = env.names.get(n)
        if not (isinstance(v, list) or isinstance(v, Seq) and v.kind == 'list'):
            raise Unsupported('append to %r' % (v,))
        olists[n] = v
    temps = names - set(accs) - tg
    inits, kinds = {}, {}
    for n in accs:
        v = old[n]
        if isinstance(v, bool) or v is None:
            kinds[n] = 'flag'
            inits[n] = v
            continue
        o = D.lift(v)
        if o is None or o.den is None:
            kinds[n] = 'temp'      # assigned before being read, or outside the subset
            continue
        kinds[n] = 'acc'
        nm = '@' + n
        if o.sort == 'scalar':
            d = nc.var(nm)
        elif o.sort == 'bra':
            d = nc.letter(nm, 'ket').adj()
        else:
            d = nc.letter(nm, o.sort)
        a = D.result('scalar' if o.sort == 'label' else o.sort, d)
        inits[n] = (a, nm)
    body_assigned_first = {n: _assigned_first(s.body, n) for n in accs if kinds[n] == 'temp'}
    for n, ok in body_assigned_first.items():
        if not ok:
            raise Unsupported('loop variable %s' % n)

    def run_body(v):
        for n in accs:
            if kinds[n] == 'acc':
                ctx.set_item(env.names, n, inits[n][0])
            elif kinds[n] == 'flag':
                ctx.set_item(env.names, n, inits[n])
            else:
                ctx.set_item(env.names, n, Opaque(n))
        fresh = {}
        for n in lists:
            fresh[n] = []
            ctx.set_item(env.names, n, fresh[n])
        I.assign(s.target, v, env)
        from .engine import _Continue
        try:
            I.exec_block(s.body, env)
        except _Continue:
            pass
        except _Break:
            raise Unsupported('break in a loop over a run')
        out = {}
        for n in lists:
            cur = env.names[n]
            if cur is not fresh[n]:
                raise Unsupported('list rebound in a loop over a run')
            if len(cur) > 1:
                raise Unsupported('several appends per iteration')
            out[n] = list(cur)
        for n in accs:
            out[n] = env.names[n]
        return ('keep', out)

    m = I.map_seg(seg, run_body)
    # variables of the loop after it: not modelled
    for n in sorted(temps | tg):
        ctx.set_item(env.names, n, Opaque(n))

    def view(name, f):
        """the run of f(out) over the iterations"""
        mm = MSeg(m.base, None, [], rev=m.rev)
        from .engine import PathResult
        for r in m.results:
            q = PathResult(r.decisions, r.kind, r.value, r.facts)
            q.counter = r.counter
            mm.results.append(q)

        def run():
            k, out = m.run()
            if k == 'drop':
                return (k, out)
            return f(out)
        mm.run = run
        for q in mm.results:
            if q.kind == 'keep':
                q.kind, q.value = ctx.with_path(run, q, lambda v: v)
        return mm

    def same(n):
        vals = []
        for r in m.results:
            v = ctx.with_path(m.run, r, lambda kv: kv[1][n] if kv[0] == 'keep' else inits[n])
            if not any(v is x or (type(v) is type(x) and v == x) for x in vals):
                vals.append(v)
        return vals

    for n in lists:
        if all(r.kind == 'drop' for r in m.results):
            continue
        mm = view(n, lambda out, n=n: ('keep', out[n][0]) if out[n] else ('drop', None))
        o = olists[n]
        chunks = list(I.to_seq(o).chunks) + [mm]
        ctx.set_item(env.names, n, Seq(chunks, 'list'))
    for n in accs:
        if kinds[n] == 'temp':
            ctx.set_item(env.names, n, Opaque(n))
            continue
        if kinds[n] == 'flag':
            vals = same(n)
            if any(is_sym(v) for v in vals):
                raise Unsupported('flag %s' % n)
            opts = [old[n]] + [v for v in vals if not (v is old[n])]
            i = ctx.choose(len(opts), 'flag %s after the loop' % n) if len(opts) > 1 else 0
            ctx.set_item(env.names, n, opts[i])
            continue
        a, nm = inits[n]
        done = False
        for op in ('sum', 'prod'):
            try:
                mm = view(n, lambda out: ('keep', _delta(D, out[n], a, nm, op)))
            except _NoForm:
                continue
            o = D.lift(old[n])
            tot = D.fold(Seq([mm], 'list'), op)
            den = o.den + tot if op == 'sum' else o.den * tot
            sort = ctx.with_path(m.run, m.results[0], lambda kv: D.lift(kv[1][n]).sort) if m.results else o.sort
            h = None
            if sort not in ('scalar', 'label'):
                import z3
                h = D.sub_hset(o.hset if o.hset is not None else z3.EmptySet(z3.IntSort()), D.seg_hset(m.base))
            ctx.set_item(env.names, n, D.result('scalar' if sort == 'label' else sort, den, h))
            done = True
            break
        if not done:
            raise Unsupported('update of %s is neither a sum nor a product' % n)


def _assigned_first(body, name):
    for st in body:
        loads = [n for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == name]
        if not loads:
            continue
        return isinstance(st, ast.Assign) and all(isinstance(n.ctx, ast.Store) for n in loads)
    return False


class _NoForm(Exception):
    pass


def _delta(D, v, a, nm, op):
    """the f(e) with v = acc + f(e) (or acc * f(e))"""
    o = D.lift(v)
    if o is None or o.den is None:
        raise Unsupported('loop value %r' % (v,))
    from .domain import _occurs
    d = D.norm(o.den)
    if op == 'sum':
        f = D.norm(d - a.den)
    else:
        out = {}
        for (m, w), c in d.t.items():
            if a.sort == 'scalar':
                mm = dict(m)
                if mm.get(nm) != 1:
                    raise _NoForm()
                del mm[nm]
                out[(tuple(sorted(mm.items())), w)] = c
            else:
                key = next(iter(a.den.t))[1][0]
                if not w or w[0] != key:
                    raise _NoForm()
                out[(m, w[1:])] = c
        f = P(out)
    if _occurs(nm, f):
        raise _NoForm()
    return D.result(o.sort if o.sort != 'label' else 'scalar', f)


# ---------------------------------------------------------------------------
# runs produced by library functions

class ProdSeg(Seg):
    """itertools.product of finitely many runs"""

    def __init__(self, name, gen, parts):
        Seg.__init__(self, name, gen)
        self.parts, self.kind = parts, 'tuple'

    def reversed(self):
        return self


class StarSeg(Seg):
    """itertools.product(*runs) for a run of sequences"""

    def __init__(self, name, gen, outer, combo):
        Seg.__init__(self, name, gen)
        self.outer, self.combo, self.kind = outer, combo, 'tuple'

    def reversed(self):
        return self


class RestSeg(Seg):
    """what is left of a run after taking an element; its sum is known"""

    def __init__(self, name, gen, den, kind, op):
        Seg.__init__(self, name, gen)
        self.den, self.kind, self.fop = den, kind, op


def product_seqs(D, I, seqs):
    seqs = [I.to_seq(x) for x in seqs]
    combos = [[]]
    for q in seqs:
        combos = [c + [x] for c in combos for x in q.chunks]
    out = []
    for combo in combos:
        if all(isinstance(c, Elem) for c in combo):
            out.append(Elem(tuple(c.v for c in combo)))
            continue
        runs = [(i, c) for i, c in enumerate(combo) if not isinstance(c, Elem)]
        if any(isinstance(c, MSeg) for _, c in runs):
            raise Unsupported('product of computed runs')

        def gen(ctx, seg, combo=combo):
            return tuple(c.v if isinstance(c, Elem) else c.gen(ctx, c) for c in combo)
        ps = ProdSeg('×'.join(c.name for _, c in runs), gen, [c for _, c in runs])
        if ps.n is not None and all(c.n is not None for _, c in runs):
            I.ctx.assume(z3.Implies(z3.And(*[c.n > 0 for _, c in runs]), ps.n > 0))
        out.append(ps)
    return I._norm(Seq(out, 'list')) if out else []


def product_star(D, I, seq):
    seq = I.to_seq(seq)
    runs = [c for c in seq.chunks if not isinstance(c, Elem)]
    if len(seq.chunks) != 1:
        raise Unsupported('product(*mixed)')
    outer = runs[0]
    base = outer.base if isinstance(outer, MSeg) else outer
    kind = base.kind
    name = 'combo(%s)' % base.name
    combo = D.make_seg(name, kind, None, n=base.n)

    def gen(ctx, seg):
        return Seq([combo], 'tuple')
    ss = StarSeg('×' + base.name, gen, outer, combo)
    if isinstance(outer, MSeg) and ss.n is not None and outer.results and all(
            r.kind == 'keep' and I.ctx.with_path(outer.run, r, lambda v: nonempty(D, I, v[1])) for r in outer.results):
        I.ctx.assume(ss.n > 0)
    return Seq([ss], 'list')


def nonempty(D, I, v):
    try:
        q = I.to_seq(v)
    except Unsupported:
        return False
    return any(isinstance(c, Elem) or isinstance(c, Seg) and c.n is not None and D.entails_cached(c.n > 0) for c in q.chunks)
