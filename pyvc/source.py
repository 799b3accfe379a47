"""Mechanical extraction: live function object -> AST of the code in /repo.

The AST node is located in the source file the function's code object was
compiled from (code positions identify lambdas that share a line).  Nothing is
dropped except docstrings, comments and type annotations.
"""
import ast
import functools
import inspect

_FILES = {}


def parse_file(fn):
    if fn not in _FILES:
        with open(fn) as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = n.decorator_list[0].lineno
                idx.setdefault(line, []).append(n)
        _FILES[fn] = (src, tree, idx)
    return _FILES[fn]


def unwrap(f):
    while True:
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        elif isinstance(f, functools.partial):
            f = f.func
        elif hasattr(f, '__wrapped__'):
            f = f.__wrapped__
        elif inspect.ismethod(f):
            f = f.__func__
        else:
            return f


def node_of(func):
    """AST node (FunctionDef or Lambda) of a live Python function"""
    co = func.__code__
    src, tree, idx = parse_file(co.co_filename)
    cands = idx.get(co.co_firstlineno, [])
    if co.co_name == '<lambda>':
        cands = [c for c in cands if isinstance(c, ast.Lambda)]
    else:
        cands = [c for c in cands if isinstance(c, ast.FunctionDef) and c.name == co.co_name]
    if not cands:
        raise LookupError('no source for %r' % func)
    if len(cands) == 1:
        return cands[0]
    # lambdas sharing a line: match the positions of the body instructions
    pos = [p for p in co.co_positions() if p[0] is not None and p[2] is not None and p[3]]
    best = None
    for c in cands:
        b = c.body
        if all((b.lineno, b.col_offset) <= (p[0], p[2]) and
               (p[1], p[3]) <= (b.end_lineno, b.end_col_offset)
               for p in pos if (p[0], p[2]) != (co.co_firstlineno, 0)):
            if best is None or (c.end_col_offset - c.col_offset) < (best.end_col_offset - best.col_offset):
                best = c
    if best is None:
        raise LookupError('ambiguous source for %r' % func)
    return best


def where(func):
    f = unwrap(func)
    co = f.__code__
    fn = co.co_filename
    i = fn.find('/src/')
    return '%s:%d %s' % (fn[i + 5:] if i >= 0 else fn, co.co_firstlineno, getattr(f, '__qualname__', co.co_name))


@functools.lru_cache(None)
def instance_attrs(cls):
    """names assigned as `self.<name> = ...` in the source of cls and its bases"""
    out = set()
    for c in cls.__mro__:
        for f in vars(c).values():
            try:
                n = node_of(unwrap(f))
            except (AttributeError, LookupError, OSError, TypeError):
                continue
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    out.add(x.attr)
    return frozenset(out)
