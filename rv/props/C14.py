# coding: utf-8
"""C14: the generated C code computes the realization, within the memory it is given"""
import os
import resource
import subprocess
import tempfile
import threading
from fractions import Fraction as F
import numpy
from rv import oracle as o
from rv import core
from rv.core import Workload
from rv.sif import Ref, NAMES, shapes, rand_mats, npmats, zmat
from rv.props.C12 import Shadow
from fixif.SIF import Realization
from fixif.SIF import Realization_implementation as impl
from fixif.LTI import random_Filter, Filter

PROPERTY = 'C14'
RULE = ('random realizations (0..4 intermediate variables, 0..5 states, 1..3 inputs and outputs, P upper triangular or not, coefficients 0, 1, -1, powers of two and 53-bit ones) '
        'and all the structures; the generated function is compiled with gcc -fsanitize=address,undefined and with clang -fsanitize=memory and called on exactly sized heap arrays '
        'over random input sequences and initial states; outputs and states after each step are compared with the exact evaluation; the Python runner is driven through '
        'histories of runs, coefficient changes, other realizations, quantized copies and concurrent threads; non-trivial with several variables and a non null output')
ASSUMPTIONS = ['gcc/clang sanitizers report the out-of-bounds accesses, undefined behaviours and uninitialised values of the executions driven',
               'double-precision sums are compared within the rigorous bound of their roundings', 'at least one state, input and output']

HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static double *rd(FILE *f, int n) { double *v = malloc(n * sizeof(double)); for (int i = 0; i < n; i++) if (fscanf(f, "%la", v + i) != 1) exit(90); return v; }
static void out(double x) { if (x != x) printf(" nan"); else printf(" %a", x); }
'''


def no_limit():
    # (the sanitizers reserve terabytes of address space)
    resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)


TEXTS = ['*/', '*\\\n/', '*??/\n/', '/*', '**/', '*//*', '{{x}}', '{% if %}', '\n', '\r\n', '\\\n', '//', '"', "'", '\\', '%s', '%d%n', '#define f', '\n#error', '??/', 'é', '\u2028', '\t', 'return 0;', '}', '{#', '-', 'filter', ' ']


def hostile(rng):
    """a name that could be anything"""
    return ''.join(rng.choice(TEXTS) for _ in range(rng.randint(1, 5)))


def gen_real(rng, i):
    l, n, p, q = rng.choice([0, 1, 2, 3, 4]), 0 if rng.random() < 0.05 else rng.randint(1, 5), rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
    if rng.random() < 0.12:
        # (indexes of two digits)
        l, n, p, q = [rng.choice([a, rng.randint(10, 13)]) for a in (l, n, p, q)]
    size = (l, n, p, q)
    mats = rand_mats(rng, *size, bits=rng.choice([2, 4, 12]), rho=F(7, 8), zero=rng.choice([0.1, 0.4, 0.8]), upper=rng.random() < 0.5)
    D = dict(zip(NAMES, mats))
    for k in NAMES[1:]:
        for r in D[k]:
            for j in range(len(r)):
                x = rng.random()
                if k not in 'KP':
                    if x < 0.1:
                        r[j] = F(1)
                    elif x < 0.2:
                        r[j] = F(-1)
                    elif x < 0.4:
                        r[j] = F(rng.uniform(-2, 2))
                    elif x < 0.43:
                        r[j] = F(rng.uniform(-1, 1) * 2.0 ** rng.choice([-40, 30]))
    if rng.random() < 0.1:
        # an empty row
        k = rng.choice('LQR')
        if D[k]:
            D[k][0] = [F(0)] * len(D[k][0])
    if n > 1 and rng.random() < 0.3:
        # P upper triangular, except one coefficient (possibly tiny)
        for a in range(n):
            for b in range(a):
                D['P'][a][b] = F(0)
        a = rng.randint(1, n - 1)
        D['P'][a][rng.choice([0, a - 1, rng.randrange(a)])] = rng.choice([F(1, 16), F(-1, 8), F(1, 2 ** 20), F(-1, 2 ** 30), F(1, 2 ** 40)])
    if rng.random() < (0.6 if max(size) > 9 else 0.2):
        # lines that are the copy (or the opposite) of one variable
        for _ in range(rng.randint(1, 4)):
            X, Y, W, a, nb = rng.choice([('K', 'P', 'Q', n, l), ('L', 'R', 'S', p, l), ('J', 'M', 'N', l, 0)])
            if not a:
                continue
            r = rng.randrange(a)
            cells = [(Z, j) for Z, b in ((X, nb if X != 'J' else r), (Y, n), (W, q)) for j in range(b)]
            # (the first variables are copied from the last ones)
            z, j = cells[-1 - rng.randrange(min(3, len(cells)))] if rng.random() < 0.3 else rng.choice(cells)
            if n > 9 and X == 'K' and rng.random() < 0.6:
                z, j, r = Y, rng.randint(9, n - 1), 0
            for Z in (X, Y, W):
                if D[Z]:
                    D[Z][r] = [F(int(Z == 'J' and b == r)) for b in range(len(D[Z][r]))]
            D[z][r][j] = F(rng.choice([1, 1, 1, -1]))
    mats = [D[k] for k in NAMES]
    if p == q == 1 and rng.random() < 0.25:
        # (the name of the filter and of the structure are written in the generated code)
        return Realization(Filter(num=[1, 2], den=[1, 0.5], name=hostile(rng)), npmats(mats, size), structureName=hostile(rng)), Shadow(mats, size)
    if rng.random() < 0.1:
        return Realization(None, npmats(mats, size), structureName=hostile(rng)), Shadow(mats, size)
    return Realization(None, npmats(mats, size)), Shadow(mats, size)


def structured(rng):
    f = random_Filter(rng.randint(2, 4), 1, 1, seed=rng.randrange(10 ** 6)) if rng.random() < 0.8 else random_Filter(rng.randint(2, 4), rng.randint(1, 2), rng.randint(1, 3), seed=rng.randrange(10 ** 6))
    Rs = list(f.iterAllRealizations())
    R = rng.choice(Rs)
    return R, Shadow([o.fmat(x) for x in R.JtoS], R.size)


U = F(1, 2 ** 53)


def row_err(row, val, err):
    """bound of the rounding errors of a double-precision sum of products, in any order (and whatever the contraction of its products)"""
    tot = e = F(0)
    nz = 0
    for v, j, c in row:
        a, ea = val[v][j], err[v][j]
        if not a and not ea:
            continue
        p = abs(c * a)
        t = abs(c) * ea
        if ea or F(float(p)) != p:
            t += U * (p + t)
        tot += p + t
        e += t
        nz += 1
    return e + max(nz - 1, 0) * U * tot * (1 + nz * U)


def evaluate(sh, u, x0=None):
    """list of (t, x(k), x(k+1), y, bound of the error of x(k+1), bound of the error of y) for each step of the realization computed in double precision"""
    r = sh.ref()
    l, n, p, q = sh.size
    ex = [F(0)] * n
    out = []
    for uk, (t, x, xn, y) in zip(u, r.run(u, x0=x0, prec=300)):
        val = {'t': t, 'x': x, 'u': uk}
        err = {'t': [], 'x': ex, 'u': [F(0)] * q}
        for i in range(l):
            err['t'].append(row_err([z for z in r.rows_t[i] if not (z[0] == 't' and z[1] == i)], val, err))
        up = lambda v: v and o.rnd(v * (1 + F(1, 1000)), 60) + F(1, 2 ** 1070)
        ey = [up(row_err(z, val, err)) for z in r.rows_y]
        ex = [up(row_err(z, val, err)) for z in r.rows_x]
        out.append((t, x, xn, y, ex, ey))
    return out


def close(x, e, err):
    return abs(x - e) <= err


def call_block(k, name, sh):
    """C code that runs the function `name` over the sequence of the file"""
    l, n, p, q = sh.size
    args = (['y'] if p > 1 else []) + (['u' if q > 1 else 'u[0]']) + ['xk']
    return r'''
static void run%d(FILE *f) {
  int N; if (fscanf(f, "%%d", &N) != 1) exit(91);
  double *x0 = rd(f, %d);
  double *xk = malloc(%d * sizeof(double)); memcpy(xk, x0, %d * sizeof(double));
  for (int k = 0; k < N; k++) {
    double *u = rd(f, %d), *u0 = malloc(%d * sizeof(double)); memcpy(u0, u, %d * sizeof(double));
    double *y = malloc(%d * sizeof(double));
    %s%s(%s);
    printf("R");
    for (int i = 0; i < %d; i++) out(y[i]);
    for (int i = 0; i < %d; i++) out(xk[i]);
    if (memcmp(u, u0, %d * sizeof(double))) printf(" INPUT-CHANGED");
    printf("\n");
    free(u); free(u0); free(y);
  }
  free(x0); free(xk);
}''' % (k, n, n, n, q, q, q, p, 'y[0] = ' if p == 1 else '', name, ', '.join(args), p, n, q)


def sanitized(m, rng, i):
    """a batch of realizations in one C file"""
    batch = [structured(rng) if rng.random() < 0.35 else gen_real(rng, i) for _ in range(6)]
    d = tempfile.mkdtemp(dir=core.SCRATCH)
    code, calls, data, seqs = [HARNESS], [], [], []
    src = []
    for k, (R, sh) in enumerate(batch):
        name = rng.choice(['f%d', 'filter_step_%d', 'a%d']) % k
        src.append(R.implementCdouble(name))
        code.append(src[-1])
        code.append(call_block(k, name, sh))
        calls.append('run%d(f);' % k)
        l, n, p, q = sh.size
        N = rng.randint(2, 12)
        x0 = [o.dyadic(rng, 8, -1, 2) for _ in range(n)] if rng.random() < 0.7 else [F(0)] * n
        if rng.random() < 0.3:
            x0 = [F(int(j == rng.randrange(n))) for j in range(n)]
        u = [[F(rng.uniform(-4, 4)) if rng.random() < 0.7 else o.dyadic(rng, 5, -1, 10) for _ in range(q)] for _ in range(N)]
        if rng.random() < 0.4:
            # one non null value: the products are exact
            z = rng.randrange(q)
            u = [[F(int(j == z and k == 0)) for j in range(q)] for k in range(N)]
            x0 = [F(0)] * n
        elif rng.random() < 0.3:
            u = [[F(0)] * q for k in range(N)]
        seqs.append((x0, u))
        data.append('%d %s %s' % (N, ' '.join(float(x).hex() for x in x0), ' '.join(float(x).hex() for v in u for x in v)))
    code.append('int main(int c, char **v) { FILE *f = fopen(v[1], "r"); %s fclose(f); printf("END\\n"); return 0; }' % ' '.join(calls))
    with open(os.path.join(d, 'run.c'), 'w') as f:
        f.write('\n'.join(code))
    with open(os.path.join(d, 'data'), 'w') as f:
        f.write('\n'.join(data))
    m.case({'C code of': [sh.size for _, sh in batch], 'names': [R.structureName for R, _ in batch]}, key=[zmat(sh.mats(), sh.size) for _, sh in batch])
    compilers = [('gcc', ['gcc', '-std=gnu99', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'])]
    if i % 2 == 0:
        compilers.append(('clang', ['clang', '-std=gnu99', '-O0', '-g', '-fsanitize=memory', '-fno-sanitize-recover=all', '-fsanitize-memory-track-origins']))
    for cname, cc in compilers:
        exe = os.path.join(d, 'run-' + cname)
        r = subprocess.run(cc + ['-w', '-o', exe, os.path.join(d, 'run.c'), '-lm'], capture_output=True, text=True)
        m.need('compiles', r.returncode == 0, 'the generated code does not compile', compiler=cname, error=r.stderr[:1500])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
        r = subprocess.run([exe, os.path.join(d, 'data')], capture_output=True, text=True, env=env, preexec_fn=no_limit)
        m.need('sanitizers', r.returncode == 0 and r.stdout.endswith('END\n') and 'Sanitizer' not in r.stderr and 'runtime error' not in r.stderr, 'the sanitizers stopped the generated code', compiler=cname,
               code=r.returncode, report=r.stderr[:2500])
        m.seen('sanitized:' + cname)
        lines = r.stdout.splitlines()[:-1]
        pos = 0
        for k, ((R, sh), (x0, u)) in enumerate(zip(batch, seqs)):
            l, n, p, q = sh.size
            for step, s in enumerate(evaluate(sh, u, x0)):
                words = lines[pos].split()
                pos += 1
                m.ok('inputs untouched', words[-1] != 'INPUT-CHANGED', 'the generated code changes its inputs')
                words = [w for w in words[1:] if w != 'INPUT-CHANGED']
                v = [float.fromhex(w) if w != 'nan' else float('nan') for w in words]
                if any(x != x or abs(x) == float('inf') for x in v):
                    m.ok('outputs', False, 'the generated code computes a NaN or an infinity', step=step, code=src[k])
                    continue
                y, x = [F(a) for a in v[:p]], [F(a) for a in v[p:]]
                m.ok('outputs', all(close(*z) for z in zip(y, s[3], s[5])), 'the outputs of the generated code are not those of the realization', step=step,
                     got=[float(a) for a in y], expected=[float(a) for a in s[3]], code=src[k], name=R.name)
                m.ok('states', len(x) == n and all(close(*z) for z in zip(x, s[2], s[4])), 'the states after a step of the generated code are not the next states', step=step,
                     got=[float(a) for a in x], expected=[float(a) for a in s[2]], code=src[k], name=R.name)


def check_run(m, R, sh, u, mon, what):
    l, n, p, q = sh.size
    y = R.runCdouble(u)
    U = [[o.frac(x) for x in c] for c in numpy.asarray(numpy.matrix(u, dtype=float)).T]
    ev = evaluate(sh, U)
    ref = [s[3] for s in ev]
    m.ok(mon, y.shape == (p, len(U)) and all(close(o.frac(y[j, k]), ref[k][j], ev[k][5][j]) for k in range(len(U)) for j in range(p)), what, got=y,
         expected=[[float(x) for x in v] for v in ref])


def rand_u(rng, q, N):
    u = numpy.matrix([[rng.uniform(-3, 3) for _ in range(N)] for _ in range(q)])
    k = rng.randrange(5)
    return u if k == 0 else numpy.array(u) if k == 1 else u.tolist() if k == 2 else numpy.matrix([[rng.randint(-5, 5) for _ in range(N)] for _ in range(q)]) if k == 3 else numpy.matrix(numpy.asfortranarray(u))


def runner(m, rng, i):
    """histories of the Python runner"""
    impl.GENERATED_PATH = tempfile.mkdtemp(dir=core.SCRATCH) + '/'
    objs = [structured(rng) if rng.random() < 0.3 else gen_real(rng, i) for _ in range(2)]
    log = []
    m.case({'runCdouble': [sh.size for _, sh in objs]}, key=[zmat(sh.mats(), sh.size) for _, sh in objs])
    for _ in range(rng.randint(4, 7)):
        k = rng.randrange(len(objs))
        R, sh = objs[k]
        l, n, p, q = sh.size
        a = rng.choice(['run', 'run', 'set', 'Z', 'other', 'quantize', 'make'])
        log.append('%s%d' % (a, k))
        if a == 'set':
            c = rng.choice(['L', 'R', 'S', 'Q', 'N', 'M'])
            s = dict(zip(NAMES, shapes(*sh.size)))[c]
            X = o.rand_mat(rng, s[0], s[1], 4, -2, 1)
            if s[0] and s[1]:
                setattr(R, c, o.npmat(X))
                sh.d[c] = X
            check_run(m, R, sh, rand_u(rng, q, 3), 'runs the current coefficients', 'after %s was set, runCdouble does not run the current realization (%s)' % (c, log))
        elif a == 'Z':
            mats = rand_mats(rng, *sh.size, rho=F(7, 8))
            R.Z = o.npmat(zmat(mats, sh.size))
            sh.d = dict(zip(NAMES, mats))
            check_run(m, R, sh, rand_u(rng, q, 3), 'runs the current coefficients', 'after Z was set, runCdouble does not run the current realization (%s)' % log)
        elif a == 'other' and len(objs) < 4:
            objs.append(gen_real(rng, i))
        elif a == 'quantize' and len(objs) < 4:
            Q = R.quantize(rng.randint(4, 12))
            objs.append((Q, Shadow([o.fmat(x) for x in Q.JtoS], Q.size)))
            check_run(m, *objs[-1], rand_u(rng, q, 3), 'runs the current coefficients', 'runCdouble of a quantized realization (%s)' % log)
        elif a == 'make':
            R.makeCdouble()
        check_run(m, R, sh, rand_u(rng, q, rng.randint(1, 6)), 'runs its own code', 'runCdouble does not run the current realization (%s)' % log)
        m.seen('history:' + a)
    for R, sh in objs:
        check_run(m, R, sh, rand_u(rng, sh.size[3], 3), 'runs its own code', 'runCdouble does not run the current realization, at the end (%s)' % log)
        m.raises('refusals', ValueError, lambda: R.runCdouble(numpy.ones((sh.size[3] + 1, 3))), 'wrong number of inputs')


def threads(m, rng, i):
    """several realizations generated and run at the same time"""
    impl.GENERATED_PATH = tempfile.mkdtemp(dir=core.SCRATCH) + '/'
    objs = [gen_real(rng, i) for _ in range(5)]
    ins = [rand_u(rng, sh.size[3], 4) for _, sh in objs]
    m.case({'threads': [sh.size for _, sh in objs]}, key=[zmat(sh.mats(), sh.size) for _, sh in objs])
    res = [None] * len(objs)

    def work(k):
        try:
            res[k] = objs[k][0].runCdouble(ins[k])
        except Exception as e:
            res[k] = e
    ts = [threading.Thread(target=work, args=(k,)) for k in range(len(objs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k, (R, sh) in enumerate(objs):
        m.need('concurrent runs', not isinstance(res[k], Exception), 'runCdouble failed when several realizations are run at the same time', error=repr(res[k]))
        U = [[o.frac(x) for x in c] for c in numpy.asarray(numpy.matrix(ins[k], dtype=float)).T]
        ev = evaluate(sh, U)
        m.ok('concurrent runs', all(close(o.frac(res[k][j, t]), ev[t][3][j], ev[t][5][j]) for t in range(len(U)) for j in range(sh.size[2])),
             'runCdouble does not run its own realization when several are run at the same time')


WORKLOADS = [Workload('sanitized', sanitized, 60, 900), Workload('Python runner', runner, 48, 700), Workload('threads', threads, 10, 120)]
EXPECT = {'sanitizers': 60, 'sanitized:gcc': 40, 'sanitized:clang': 20, 'outputs': 1000, 'states': 1000, 'runs its own code': 150, 'runs the current coefficients': 20, 'concurrent runs': 40}
