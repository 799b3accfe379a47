"""Mutation sampling (development tool, no check uses it): which small edits of
the real code survive the repository's own tests?

mutate.py run OUT.jsonl SEED N WORKERS [FILE_SUBSTRING...]"""
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

SRC = '/tmp/mut/base/src/qnet'        # a copy of /repo
FILES = ['algebra/_rules.py', 'algebra/core/algebraic_properties.py', 'algebra/core/abstract_quantum_algebra.py',
         'algebra/core/abstract_algebra.py', 'algebra/core/operator_algebra.py', 'algebra/core/state_algebra.py',
         'algebra/core/super_operator_algebra.py', 'algebra/core/scalar_algebra.py', 'algebra/core/indexed_operations.py',
         'algebra/core/hilbert_space_algebra.py', 'algebra/core/matrix_algebra.py', 'algebra/core/circuit_algebra.py',
         'algebra/library/fock_operators.py', 'algebra/library/spin_algebra.py', 'algebra/library/circuit_components.py',
         'algebra/library/pauli_matrices.py', 'algebra/toolbox/core.py', 'algebra/toolbox/circuit_manipulation.py',
         'algebra/toolbox/commutator_manipulation.py', 'algebra/toolbox/equation.py', 'algebra/pattern_matching/__init__.py',
         'utils/permutations.py', 'utils/indices.py', 'utils/ordering.py', 'utils/containers.py',
         'convert/to_qutip.py', 'convert/to_sympy_matrix.py', 'printing/asciiprinter.py', 'printing/sreprprinter.py',
         'printing/base.py', 'printing/_precedence.py']
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Div: ['*'], ast.Pow: ['*'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.LShift: ['>>']}


def mutants(f):
    p = os.path.join(SRC, f)
    s = open(p).read()
    lines = s.split('\n')
    off = [0]
    for l in s.encode().split(b'\n'):
        off.append(off[-1] + len(l) + 1)
    b = s.encode()

    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        a, e = seg(n)
        return b[a:e].decode()
    out = []

    def rep(n, new, kind):
        a, e = seg(n)
        out.append((f, a, e, new, kind, n.lineno))
    tree = ast.parse(s)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for m in ast.walk(n):
                infn.add(id(m))
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n):
                docs.add(id(m))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, '%s %s %s' % (txt(n.left), o, txt(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                rep(n, '(%s %s %s)' % (txt(n.left), o, txt(n.right)), 'bin')
            if isinstance(n.op, (ast.Mult, ast.Sub, ast.Div)) and not isinstance(n.left, ast.Constant):
                rep(n, '((%s) %s (%s))' % (txt(n.right), '*' if isinstance(n.op, ast.Mult) else '-' if isinstance(n.op, ast.Sub) else '/', txt(n.left)), 'swap')
            if isinstance(n.op, (ast.Mult, ast.Add)):
                rep(n, txt(n.left), 'dropright')
                rep(n, txt(n.right), 'dropleft')
        elif isinstance(n, ast.BoolOp):
            w = ' and ' if isinstance(n.op, ast.Or) else ' or '
            rep(n, '(' + w.join('(%s)' % txt(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                r = [txt(v) for j, v in enumerate(n.values) if j != i]
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % x for x in r) + ')', 'dropcond')
        elif isinstance(n, ast.UnaryOp):
            rep(n, txt(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'const')
                if n.value == 1:
                    rep(n, '0', 'const')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('adjoint', 'dag', 'conjugate', '_adjoint', 'conjugated', 'reversed', 'transpose') \
                    and not n.args:
                rep(n, txt(n.func.value), 'dropcall')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) \
                    and not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'hasattr', 'getattr', 'pattern_head', 'pattern', 'wc', 'range')):
                a, e = seg(n.args[0])[0], seg(n.args[1])[1]
                mid = b[seg(n.args[0])[1]:seg(n.args[1])[0]].decode()
                out.append((f, a, e, txt(n.args[1]) + mid + txt(n.args[0]), 'swapargs', n.lineno))
        elif isinstance(n, ast.If):
            rep(n.test, 'True', 'iftrue')
            rep(n.test, 'False', 'iffalse')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset > 4:
            if isinstance(n, ast.AugAssign):
                rep(n, 'pass', 'delstmt')
        elif isinstance(n, ast.IfExp):
            rep(n, txt(n.body), 'ifexp')
            rep(n, txt(n.orelse), 'ifexp')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                rep(n.lower, '(%s)+1' % txt(n.lower), 'slice')
    res = []
    for m in out:
        _, a, e, new, kind, ln = m
        t = b[:a] + new.encode() + b[e:]
        try:
            if t != b:
                ast.parse(t.decode())
                res.append(m)
        except SyntaxError:
            pass
    return res


def init(base, ctr):
    global WT
    with ctr.get_lock():
        k = ctr.value
        ctr.value += 1
    WT = '/tmp/mut/w%s_%d' % (base, k)
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/tmp/mut/base', WT])


DES = []


def one(m):
    f, a, e, new, kind, ln = m
    p = os.path.join(WT, 'src/qnet', f)
    b = open(os.path.join(SRC, f), 'rb').read()
    open(p, 'wb').write(b[:a] + new.encode() + b[e:])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', LANG='C.UTF-8')
    py = '/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 --doctest-modules --tb=line ' + ' '.join('--deselect "%s"' % d for d in DES)
    ok = True
    try:
        for part in ('tests', 'src', 'docs/*.rst'):
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s %s' % (WT, py, part)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=300)
            if r.returncode != 0:
                ok = False
                break
    except subprocess.TimeoutExpired:
        ok = False
    open(p, 'wb').write(b)
    return m, ok


if __name__ == '__main__':
    out, seed, n, w = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    subs = sys.argv[6:]
    DES = [l.strip() for l in open('/tmp/mut/deselect')]
    ms = []
    for f in FILES:
        if not subs or any(s in f for s in subs):
            ms += mutants(f)
    print(len(ms), 'mutants')
    random.Random(seed).shuffle(ms)
    ctr = mp.Value('i', 0)
    with mp.Pool(w, init, (os.path.basename(out), ctr)) as pool, open(out, 'a') as fo:
        for m, ok in pool.imap_unordered(one, ms[:n]):
            f, a, e, new, kind, ln = m
            old = open(os.path.join(SRC, f), 'rb').read()[a:e].decode()
            fo.write(json.dumps(dict(f=f, a=a, e=e, old=old, new=new, kind=kind, line=ln, survived=ok)) + '\n')
            fo.flush()
