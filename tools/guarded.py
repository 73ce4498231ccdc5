#!/usr/bin/env python3
"""mutations that only manifest in some circumstances: which ones do the checks miss?
usage: guarded.py FILE CHECKS N [SEED] [JOBS]
A mutant (see mutate.py) that the checks report when it is always active is tried again when it is active only
 - for some sizes, - when a size differs from another, - from the second evaluation on the same object, - for a small part of the arguments, - for some signs or magnitudes"""
import ast
import os
import random
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
from mutate import mutants, run, REPO

HELPER = '''
def _rvG(kind, loc, memo={}):
    r = _rvGuard(kind, loc, memo)
    if r and not memo.get('active'):
        memo['active'] = 1
        open(_RVACT, 'w').close()
    return r


def _rvGuard(kind, loc, memo):
    import zlib, numpy
    mpmath_re = lambda v: getattr(v, 'real', v)
    try:
        self = loc.get('self')
        def size(o):
            r = {}
            for a in ('n', 'p', 'q', 'l', 'order', 'rows', 'cols'):
                v = getattr(o, '_' + a, getattr(o, a, None))
                if isinstance(v, (int, numpy.integer)):
                    r[a] = int(v)
            if hasattr(o, 'shape') and len(o.shape) == 2:
                r['rows'], r['cols'] = o.shape
            return r
        def arrays():
            for o in list(loc.values()) + (list(getattr(self, '__dict__', {}).values()) if self is not None else []):
                if isinstance(o, numpy.ndarray) and o.dtype.kind == 'f' and o.size:
                    yield numpy.asarray(o)
                elif type(o).__module__.startswith('mpmath') and hasattr(o, 'rows') and o.rows and o.cols:
                    yield numpy.array([[float(mpmath_re(o[i, j])) for j in range(o.cols)] for i in range(o.rows)])
                elif isinstance(o, (float, numpy.floating)) or type(o).__name__ == 'mpf':
                    yield numpy.array([[float(o)]])
        S = [size(o) for o in loc.values()]
        if kind == 'size>=4':
            return any(v >= 4 for s in S for v in s.values())
        if kind == 'size==3':
            return any(v == 3 for s in S for v in s.values())
        if kind == 'not square':
            return any(s.get('p', 1) != s.get('q', 1) or s.get('rows', 1) != s.get('cols', 1) for s in S)
        if kind == 'p>1':
            return any(s.get('p', 1) > 1 for s in S)
        if kind == 'q>1':
            return any(s.get('q', 1) > 1 for s in S)
        if kind == 'n=p':
            return any('n' in s and s.get('n') == s.get('p') for s in S)
        if kind == 'again':
            o = self if self is not None else next(iter(loc.values()))
            k = id(o)
            if k in memo and memo[k] is o:
                return True
            memo[k] = o
            return False
        if kind == 'nth':
            memo['count'] = memo.get('count', 0) + 1
            return memo['count'] % 7 == 3
        if kind in ('long', 'short'):
            L = [len(o) for o in list(loc.values()) + list(getattr(self, '__dict__', {}).values()) if isinstance(o, (list, tuple, dict, str))]
            return any(k >= 7 for k in L) if kind == 'long' else any(k <= 1 for k in L)
        if kind == 'rare':
            h = 0
            for o in loc.values():
                if isinstance(o, (int, float, str, numpy.ndarray, list, tuple, numpy.generic)):
                    h = zlib.crc32(repr(o).encode(), h)
                elif hasattr(o, '__dict__'):
                    h = zlib.crc32(repr(sorted((k, repr(v)) for k, v in vars(o).items() if isinstance(v, (int, float, str, numpy.ndarray)))).encode(), h)
            return h % 25 == 3
        if kind == 'large':
            return any((abs(a) > 30).any() for a in arrays())
        if kind == 'small':
            return any(((abs(a) < 1e-4) & (a != 0)).any() for a in arrays())
        if kind == 'integers':
            return any(a.size > 1 and (a == numpy.round(a)).all() and (a != 0).any() for a in arrays())
        if kind == 'huge':
            return any((abs(a) > 1e6).any() for a in arrays())
        if kind == 'tiny':
            return any(((abs(a) < 1e-9) & (a != 0)).any() for a in arrays())
        if kind == 'near one':
            return any(((abs(abs(a) - 1) < 1e-3) & (abs(a) != 1)).any() for a in arrays())
        if kind == 'dim>=9':
            return any(max(a.shape, default=0) >= 9 for a in arrays()) or any(v >= 9 for s in S for v in s.values())
        if kind == 'diagonal':
            return any(a.ndim == 2 and min(a.shape) > 1 and a.shape[0] == a.shape[1] and a.any() and not (a - numpy.diag(numpy.diagonal(a))).any() for a in arrays())
        if kind == 'equal entries':
            return any(a.size > 1 and a.any() and len(numpy.unique(a)) < a.size and (a.ravel() == a.ravel()[0]).all() for a in arrays())
        if kind == 'empty':
            return any(a.size == 0 for a in arrays()) or any(0 in s.values() for s in S)
        if kind == 'null rows':
            return any(a.ndim == 2 and a.shape[0] > 1 and (~a.any(axis=1)).any() for a in arrays())
        if kind == 'negative':
            return any(a.ndim == 2 and (a <= 0).all() and a.any() for a in arrays())
        if kind == 'int loc':
            return any(isinstance(v, int) and not isinstance(v, bool) and v >= 3 for v in loc.values())
    except Exception:
        return False
    return False
'''
KINDS = ['size>=4', 'size==3', 'not square', 'p>1', 'q>1', 'n=p', 'again', 'again', 'rare', 'rare', 'rare', 'large', 'small', 'integers', 'null rows', 'negative', 'int loc', 'nth', 'nth', 'long', 'short']
NEW = ['huge', 'tiny', 'near one', 'dim>=9', 'diagonal', 'equal entries', 'empty', 'nth', 'again', 'integers', 'null rows']
if os.environ.get('GUARDS') == 'new':
    KINDS = NEW
PLAIN = ['again', 'rare', 'rare', 'nth', 'nth', 'long', 'short', 'int loc']


def both(args):
    file, d, t, g, checks, W = args
    r, _ = run((file, d, t, checks, W))
    if not r.startswith('caught'):
        return 'always: ' + r, d
    c = r.split()[1]
    act = tempfile.mktemp(prefix='act', dir='/dev/shm')
    g += '\n_RVACT = %r\n' % act
    r, _ = run((file, d, g, [c] + [x for x in checks if x != c], W))
    if os.path.exists(act):
        os.remove(act)
    elif not r.startswith('caught'):
        r = 'idle'
    return r, d


def main():
    file, checks, n = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
    seed = sys.argv[4] if len(sys.argv) > 4 else '0'
    jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    src = open(os.path.join(REPO, file)).read()
    b = src.encode()
    rng = random.Random('guarded ' + seed)
    tree = ast.parse(src)
    last = max([x.end_lineno for x in tree.body if isinstance(x, (ast.Import, ast.ImportFrom))] + [0])
    lines = src.split('\n')
    ms = []
    for d, t, s, e, new in mutants(src, True):
        old = b[s:e].decode()
        try:
            ast.parse('(%s)' % old.replace('\n', ' '), mode='eval')
            ast.parse('(%s)' % new.replace('\n', ' '), mode='eval')
        except SyntaxError:
            continue
        kind = rng.choice(PLAIN if 'Simulink' in file else KINDS)
        body = (b[:s] + ('((%s) if _rvG(%r, locals()) else (%s))' % (new, kind, old)).encode() + b[e:]).decode()
        try:
            tr = ast.parse(body)
        except SyntaxError:
            continue
        k = tr.body[0].end_lineno if isinstance(tr.body[0], ast.Expr) and isinstance(tr.body[0].value, ast.Constant) else 0
        bl = body.split('\n')
        g = '\n'.join(bl + [HELPER])
        try:
            ast.parse(g)
        except SyntaxError:
            continue
        ms.append(('[%s] %s' % (kind, d), t, g))
    tot = len(ms)
    rng.shuffle(ms)
    ms = ms[:n]
    W = tempfile.mkdtemp(prefix='mut', dir='/dev/shm')
    cnt = {}
    try:
        with ThreadPoolExecutor(jobs) as ex:
            for r, d in ex.map(both, [(file, d, t, g, checks, W) for d, t, g in ms]):
                k = r.split()[0]
                cnt[k] = cnt.get(k, 0) + 1
                if k not in ('caught', 'always:', 'idle'):
                    print('%s %s' % (r, d), flush=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)
    print('== %s: %d of %d guarded mutants: %s' % (file, len(ms), tot, cnt), flush=True)


if __name__ == '__main__':
    main()
