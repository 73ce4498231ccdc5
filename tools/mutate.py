#!/usr/bin/env python3
"""systematic mutation of fixif/FiXiF: which small changes do the checks miss?
usage: mutate.py FILE CHECKS N [SEED] [JOBS]     (FILE relative to /repo; CHECKS such as C01,C04)
Each mutant lives in its own scratch copy; the checks run against it through RV_REPO, from a scratch copy of /verif."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.environ.get('MUT_VERIF', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('MUT_REPO', '/repo')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+', ast.Pow: '*'}
ATTR = {'rows': 'cols', 'cols': 'rows', '_l': '_n', '_n': '_q', '_p': '_q', '_q': '_p', 'l': 'n', 'n': 'q', 'p': 'q', 'q': 'p', 'A': 'D', 'B': 'D', 'real': 'imag', 'num': 'den', 'den': 'num',
        'JtoS': 'KtoS', 'AZ': 'A', 'BZ': 'B', 'CZ': 'C', 'DZ': 'D', 'msb': 'lsb', 'lsb': 'msb'}
CALL1 = {'abs', 'sqrt', 'floor', 'ceil', 'log2', 'copy', 'transpose', 'conj', 'int', 'float', 'round', 'list', 'sorted', 'set', 'reversed', 'array', 'real', 'mat', 'matrix'}


def mutants(src, spans=False):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def rep(n, new, what):
        s, e = span(n)
        out.append((s, e, new, '%d: %s -> %s' % (n.lineno, seg(n)[:100].replace('\n', ' '), new[:100].replace('\n', ' '))))

    def visit(n, infunc):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(n, (ast.FunctionDef,)):
            infunc = True
            if n.name in ('__main__',):
                return
        if infunc:
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    rep(n, str(not n.value), '')
                elif isinstance(n.value, int):
                    rep(n, '(%d)' % (n.value + 1), '')
                    if n.value:
                        rep(n, '(%d)' % (n.value - 1), '')
                elif isinstance(n.value, float):
                    rep(n, '(%r)' % (n.value * 2 + 1e-3), '')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                rep(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), '')
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    rep(n, '(%s)' % seg(n.left), '')
                    rep(n, '(%s)' % seg(n.right), '')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                rep(n, '(%s)' % seg(n.operand), '')
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                rep(n, '(%s %s %s)' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), '')
                if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    opp = {ast.Lt: '>=', ast.LtE: '>', ast.Gt: '<=', ast.GtE: '<'}[type(n.ops[0])]
                    rep(n, '(%s %s %s)' % (seg(n.left), opp, seg(n.comparators[0])), '')
            elif isinstance(n, ast.BoolOp):
                rep(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % seg(v) for v in n.values) + ')', '')
                for v in n.values:
                    rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(w) for w in n.values if w is not v) + ')', '')
            elif isinstance(n, ast.If):
                rep(n.test, 'True', '')
                rep(n.test, 'False', '')
            elif isinstance(n, ast.IfExp):
                rep(n, '(%s)' % seg(n.body), '')
                rep(n, '(%s)' % seg(n.orelse), '')
            elif isinstance(n, ast.AugAssign):
                op = {ast.Add: '-=', ast.Sub: '+='}.get(type(n.op))
                if op:
                    rep(n, '%s %s %s' % (seg(n.target), op, seg(n.value)), '')
                rep(n, 'pass', '')
            elif isinstance(n, ast.Assign) and not (len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
                rep(n, 'pass', '')
            elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
                rep(n, 'pass', '')
            elif isinstance(n, ast.Attribute) and n.attr in ATTR:
                rep(n, '%s.%s' % (seg(n.value), ATTR[n.attr]), '')
            if isinstance(n, ast.Attribute) and n.attr == 'T':
                rep(n, seg(n.value), '')
            if isinstance(n, ast.Call):
                f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                if len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                    a = [seg(x) for x in n.args]
                    a[0], a[1] = a[1], a[0]
                    rep(n, '%s(%s)' % (seg(n.func), ', '.join(a)), '')
                if f in CALL1:
                    if len(n.args) == 1:
                        rep(n, '(%s)' % seg(n.args[0]), '')
                    elif not n.args and isinstance(n.func, ast.Attribute):
                        rep(n, '(%s)' % seg(n.func.value), '')
                if f in ('min', 'max'):
                    rep(n, ('max' if f == 'min' else 'min') + b[span(n.func)[1]:span(n)[1]].decode(), '')
                for k in n.keywords:
                    if k.arg:
                        s = b[span(n)[0]:span(n)[1]].decode()
                        others = [seg(x) for x in n.args] + ['%s=%s' % (x.arg, seg(x.value)) if x.arg else '**' + seg(x.value) for x in n.keywords if x is not k]
                        rep(n, '%s(%s)' % (seg(n.func), ', '.join(others)), '')
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
                rep(n, '%s[%s, %s]' % (seg(n.value), seg(n.slice.elts[1]), seg(n.slice.elts[0])), '')
            if isinstance(n, (ast.Break, ast.Continue)):
                rep(n, 'pass', '')
        for c in ast.iter_child_nodes(n):
            visit(c, infunc)
    visit(tree, False)
    res = []
    seen = set()
    for s, e, new, d in out:
        t = (b[:s] + new.encode() + b[e:]).decode()
        if t in seen or t == src:
            continue
        seen.add(t)
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((d, t) if not spans else (d, t, s, e, new))
    return res


def run(args):
    file, d, t, checks, W = args
    D = tempfile.mkdtemp(prefix='m', dir=W)
    try:
        R = os.path.join(D, 'repo')
        shutil.copytree(REPO, R, ignore=shutil.ignore_patterns('.git', '__pycache__', 'matlab', 'biblio'))
        X = os.path.join(D, 'verif')
        os.mkdir(X)
        for x in ('rv', 'stubs', 'check', 'known_findings.json', 'properties.jsonl'):
            (shutil.copytree if os.path.isdir(os.path.join(V, x)) else shutil.copy)(os.path.join(V, x), os.path.join(X, x))
        os.mkdir(os.path.join(X, 'evidence'))
        # (smaller shards, and the check stops after the first violation)
        core = open(os.path.join(X, 'rv/core.py')).read()
        a = "            total.merge(pickle.load(f))\n"
        assert a in core and 'ncpu * 3' in core
        core = core.replace('ncpu * 3', 'ncpu * 16').replace(a, a + "        if any(not any(k['property'] == prop and k['key'] == v['key'] for k in load_known()) for v in total.violations):\n            pending = []\n")
        open(os.path.join(X, 'rv/core.py'), 'w').write(core)
        open(os.path.join(R, file), 'w').write(t)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        if 'func_aux' in file:
            r = subprocess.run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider fixif/func_aux/test/test_MPFmatrix.py', shell=True, cwd=R, env=e, capture_output=True, text=True)
            if '8 passed' not in r.stdout:
                return 'tests', d
        e.update(RV_REPO=R, RV_CASE_CPU='15', VERIF_SEED='1', RV_NCPU=os.environ.get('MUT_NCPU', '1'))
        for c in checks:
            try:
                r = subprocess.run([os.path.join(X, 'check'), c], env=e, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return 'timeout ' + c, d
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                return 'caught ' + c, d
            if r.returncode != 0:
                return 'rc%d %s %s' % (r.returncode, c, (r.stdout + r.stderr)[-300:]), d
        return 'SURVIVED', d
    finally:
        shutil.rmtree(D, ignore_errors=True)


def main():
    file, checks, n = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
    seed = sys.argv[4] if len(sys.argv) > 4 else '0'
    jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    ms = mutants(open(os.path.join(REPO, file)).read())
    tot = len(ms)
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    W = tempfile.mkdtemp(prefix='mut', dir='/dev/shm')
    cnt = {}
    try:
        with ThreadPoolExecutor(jobs) as ex:
            for r, d in ex.map(run, [(file, d, t, checks, W) for d, t in ms]):
                k = r.split()[0]
                cnt[k] = cnt.get(k, 0) + 1
                if k not in ('caught', 'tests'):
                    print('%s %s' % (r, d), flush=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)
    print('== %s: %d of %d mutants: %s' % (file, len(ms), tot, cnt), flush=True)


if __name__ == '__main__':
    main()
