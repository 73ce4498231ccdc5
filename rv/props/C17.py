# coding: utf-8
"""C17: most significant bits and word-lengths"""
import os
import re
from fractions import Fraction as F
import numpy
from rv import oracle as o
from rv import core
from rv.core import Workload, StopCase
from itertools import product
from rv.ampl import Model as AmplModel, Unreadable
from rv.sif import rand_mats, npmats, zmat, Ref
from rv.props.C12 import Shadow, inp_u, inp_e, resp
from fixif.SIF import Realization
from fixif.LTI import random_Filter
from fixif import Structures as St

PROPERTY = 'C17'
RULE = ('random stable realizations (0..3 intermediate variables, 0..4 states, 1..2 inputs, 1..3 outputs; some nilpotent ones whose peaks are exact powers of two) and structured ones, '
        'random bounds of the inputs and of the output errors; the worst-case inputs of every variable are built from its impulse response and run, the word-lengths are used in rounded '
        'runs of the realization whose output error is watched, the smaller word-length is evaluated, and the AMPL file is read back')
ASSUMPTIONS = ['every variable is reached by the inputs (and, for optimalWL, reaches an output)', 'worst-case peak gains computed by the stand-in of the (absent) WCPG package',
               'variables rounded to the nearest; cases at 1e-9 of a threshold are counted apart', 'u_bar and eps are column matrices']


class Model(object):
    """exact (up to a bounded tail) worst-case gains"""
    def __init__(self, sh, N, tail):
        self.sh, self.N = sh, N
        l, n, p, q = sh.size
        r = sh.ref()
        self.h = resp(r, N, lambda s: s[0] + s[1] + s[3], q, inp_u(sh.size))
        self.e = resp(r, N, lambda s: s[3], l + n + p, inp_e(sh.size))
        self.W = [[sum(abs(x[i][j]) for x in self.h) for j in range(q)] for i in range(l + n + p)]
        self.E = [[sum(abs(x[i][j]) for x in self.e) for j in range(l + n + p)] for i in range(p)]
        self.tail = tail        # relative bound of what is after N

    def zeta(self, ub):
        return [sum(w * u for w, u in zip(r, ub)) for r in self.W]


def clog2(x):
    """ceil(log2 x)"""
    e = 0
    while F(2) ** e < x:
        e += 1
    while F(2) ** (e - 1) >= x:
        e -= 1
    return e


def flog2(x):
    e = clog2(x)
    return e if F(2) ** e == x else e - 1


def thresholds(z, exact):
    """(msb, w_tilde, sure) of a peak"""
    m = clog2(z)
    gap = F(2) ** m - z
    wt = None if gap == 0 else 1 + m - flog2(gap)
    if exact:
        return m, wt, True
    d = z * F(1, 10 ** 8)
    if clog2(z - d) != m or clog2(z + d) != m or gap <= d:
        return m, wt, False
    return m, wt, flog2(gap - d) == flog2(gap + d)


def draw(m, rng, exact=False):
    while True:
        size = (rng.choice([0, 0, 1, 2, 3]), 0 if rng.random() < 0.05 else rng.randint(1, 4), rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2]))
        if exact:
            size = (0,) + size[1:]
        l, n, p, q = size
        mats = rand_mats(rng, *size, bits=rng.choice([2, 4]), rho=F(1, 2) if not exact else None, zero=rng.choice([0.1, 0.4]), upper=exact)
        d = dict(zip('JKLMNPQRS', mats))
        if exact:
            for i in range(n):
                d['P'][i][i] = F(0)
        if rng.random() < 0.4:
            # outputs (and states) of very different magnitudes
            for i in range(p):
                k = F(2) ** -rng.choice([0, rng.randint(0, 20)])
                for c in 'LRS':
                    d[c][i] = [v * k for v in d[c][i]]
            for i in range(n):
                k = F(2) ** rng.choice([0, rng.randint(-12, 12)])
                for c in 'KPQ':
                    d[c][i] = [v * k for v in d[c][i]]
                for c in 'MPR':
                    for r in d[c]:
                        r[i] /= k
        if exact and rng.random() < 0.5:
            nearly(rng, d, size)
        sh = Shadow(mats, size)
        M = Model(sh, n + 2 if exact else 70, 0)
        if all(any(r) for r in M.W) and all(any(M.E[i][j] for i in range(p)) for j in range(l + n + p)):
            return Realization(None, npmats(mats, size)), sh, M
        m.note('unreached variables: drawn again')


def nearly(rng, d, size):
    """change one direct coefficient so that the gain of an output is nearly (or exactly) a power of two"""
    l, n, p, q = size
    i, j = rng.randrange(p), rng.randrange(q)
    z = sum(abs(x[i][j]) for x in o.impulse(d['P'], d['Q'], d['R'], d['S'], n + 2)) - abs(d['S'][i][j])
    k = clog2(z) if z else rng.randint(-3, 3)
    k += rng.choice([0, 1, 2, rng.randint(3, 40)])
    v = F(2) ** k * (1 + rng.choice([0, -1, 1, 1]) * F(1, 2 ** rng.choice([10, 20, 30, 40, 45, 48, 50, 51, 52])))
    if v > z and F(float(v - z)) == v - z:
        d['S'][i][j] = rng.choice([-1, 1]) * (v - z)
        for jj in range(q):
            if jj != j:
                # (the peak of the output is that of this input)
                for c in 'QS':
                    for r in d[c] if c == 'Q' else [d[c][i]]:
                        r[jj] = F(0)


def bounds(rng, sh, exact):
    q, p = sh.size[3], sh.size[2]
    ub = [F(rng.randint(1, 64), 8) if not exact else F(2) ** rng.randint(-3, 3) for _ in range(q)]
    eps = [F(rng.randint(1, 64), 8) * F(2) ** rng.choice([rng.randint(-30, -2), rng.randint(-44, -30)]) for _ in range(p)]
    if q > 1 and rng.random() < 0.25:
        # bounds that are (nearly) equal
        ub = [ub[0]] * q
        if not exact and rng.random() < 0.7:
            ub[rng.randrange(q)] *= 1 + rng.choice([-1, 1]) * F(1, 2 ** rng.randint(3, 12))
    if p > 1 and rng.random() < 0.25:
        eps = [eps[0]] * p
        if rng.random() < 0.7:
            eps[rng.randrange(p)] *= 1 + rng.choice([-1, 1]) * F(1, 2 ** rng.randint(3, 12))
    if rng.random() < 0.12:
        # other units
        k = F(2) ** (rng.choice([-1, 1]) * rng.randint(20, 70))
        ub, eps = [x * k for x in ub], [x * k for x in eps]
    return ub, eps


col = lambda v: numpy.matrix([[float(x)] for x in v])


def msb(m, rng, i):
    exact = i % 3 == 0
    R, sh, M = draw(m, rng, exact)
    l, n, p, q = sh.size
    ub, _ = bounds(rng, sh, exact)
    m.case({'msb': sh.size, 'u_bar': [float(x) for x in ub], 'exact': exact, 'Z': o.sbm(zmat(sh.mats(), sh.size))}, nontrivial=True)
    check_msb(m, rng, R, sh, M, ub, exact)


def check_msb(m, rng, R, sh, M, ub, exact):
    l, n, p, q = sh.size
    got = R.computeNaiveMSB(col(ub))
    if not m.ok('msb', len(got) == l + n + p, 'wrong number of most significant bits', got=got):
        return
    z = M.zeta(ub)
    # runs: the worst inputs of a few variables, and random inputs; every variable is watched
    r = sh.ref()
    runs = []
    idx = rng.sample(range(l + n + p), min(3, l + n + p))
    for v in idx:
        runs.append((v, [[ub[j] * (1 if M.h[M.N - 1 - k][v][j] >= 0 else -1) for j in range(q)] for k in range(M.N)]))
    runs.append((None, [[rng.choice([1, -1, F(rng.randint(-8, 8), 8)]) * b for b in ub] for _ in range(25)]))
    tol = 1 if exact else 1 + F(1, 10 ** 9)
    for v, u in runs:
        peak = [F(0)] * (l + n + p)
        last = None
        for t, x, _, y in r.run(u):
            last = t + x + y
            peak = [max(a, abs(b)) for a, b in zip(peak, last)]
        for i in range(l + n + p):
            m.ok('msb', peak[i] <= F(2) ** got[i] * tol, 'a variable exceeds the range given by its most significant bit', variable=i, msb=got[i], value=float(peak[i]))
        if v is not None:
            m.seen('worst-case runs')
            if z[v] > F(2) ** (got[v] - 1) * tol:
                # the smaller most significant bit is exceeded in this run
                m.ok('msb minimal', exact is False or peak[v] > F(2) ** (got[v] - 1), 'harness: the worst-case run does not reach the peak')
    for i in range(l + n + p):
        mm, wt, sure = thresholds(z[i], exact)
        if not sure and got[i] != mm:
            m.note('msb at a threshold')
            continue
        m.ok('msb minimal', z[i] > F(2) ** (got[i] - 1), 'a smaller most significant bit is never exceeded', variable=i, msb=got[i], peak=float(z[i]), exact=exact)
        m.ok('msb', z[i] <= F(2) ** got[i], 'the peak of a variable exceeds the range given by its most significant bit', variable=i, msb=got[i], peak=float(z[i]), exact=exact)
        if F(2) ** mm == z[i]:
            m.seen('peaks that are powers of two')
    return got


def worst_y(M, w, msbs, wts, i):
    """bound of the error of output i; w: word-lengths"""
    return sum(M.E[i][j] * F(2) ** (msbs[j] - w[j] + (1 if wts[j] is None or w[j] < wts[j] else 0)) for j in range(len(w)))


def rounded(rng, sh, M, ub, w, msbs, wts, N):
    """run with all the variables rounded to the nearest on their word-lengths -> largest errors of the outputs"""
    l, n, p, q = sh.size
    lsb = [msbs[j] + (1 if wts[j] is None or w[j] < wts[j] else 0) + 1 - w[j] for j in range(l + n + p)]

    def rd(x, k):
        s = F(2) ** lsb[k]
        v = x / s
        f = v.numerator // v.denominator
        d = v - f
        return s * (f + (1 if d > F(1, 2) or (d == F(1, 2) and rng.random() < 0.5) else 0))
    r = sh.ref()
    x0 = x1 = [F(0)] * n
    big = [F(0)] * p
    for k in range(N):
        u = [rng.choice([1, -1, F(rng.randint(-64, 64), 64)]) * b for b in ub]
        # step() adds its errors after each computation: they are the rounding errors
        _, x0, y0 = r.step(x0, u)
        t = []
        for i in range(l):
            e = ([F(0)] * l, [F(0)] * n, [F(0)] * p)
            acc = F(0)
            for v, j, c in r.rows_t[i]:
                if v == 't' and j == i:
                    continue
                acc += c * {'t': t, 'x': x1, 'u': u}[v][j]
            t.append(rd(acc, i))
        val = {'t': t, 'x': x1, 'u': u}
        xn = [rd(sum((c * val[v][j] for v, j, c in rw), F(0)), l + i) for i, rw in enumerate(r.rows_x)]
        y = [rd(sum((c * val[v][j] for v, j, c in rw), F(0)), l + n + i) for i, rw in enumerate(r.rows_y)]
        x1 = xn
        big = [max(a, abs(b - c)) for a, b, c in zip(big, y, y0)]
    return big


def wordlengths(m, rng, i):
    exact = i % 4 == 0
    R, sh, M = draw(m, rng, exact)
    l, n, p, q = sh.size
    ub, eps = bounds(rng, sh, exact)
    m.case({'word-lengths': sh.size, 'u_bar': [float(x) for x in ub], 'eps': [float(x) for x in eps], 'exact': exact, 'Z': o.sbm(zmat(sh.mats(), sh.size))})
    check_wl(m, rng, R, sh, M, ub, eps, exact)
    m.ok('realization untouched', o.fmat(R.Z) == zmat(sh.mats(), sh.size), 'the realization has been modified')


def check_wl(m, rng, R, sh, M, ub, eps, exact):
    l, n, p, q = sh.size
    nb = l + n + p
    z = M.zeta(ub)
    th = [thresholds(x, exact) for x in z]
    if not all(t[2] for t in th):
        m.note('word-lengths at a threshold')
        return
    msbs, wts = [t[0] for t in th], [t[1] for t in th]
    tol = F(1, 10 ** 8)
    w = R.optimalUniformWL(col(ub), col(eps))
    m.ok('uniform', int(w) == w, 'the uniform word-length is not an integer', w=w)
    w = int(w)
    for i in range(p):
        m.ok('uniform', worst_y(M, [w] * nb, msbs, wts, i) <= eps[i] * (1 + tol), 'the uniform word-length does not meet the error constraint of an output', w=w, output=i,
             error=float(worst_y(M, [w] * nb, msbs, wts, i)), eps=float(eps[i]))
    m.ok('uniform minimal', any(worst_y(M, [w - 1] * nb, msbs, wts, i) >= eps[i] * (1 - tol) for i in range(p)), 'a smaller uniform word-length meets the constraints', w=w,
         errors=[float(worst_y(M, [w - 1] * nb, msbs, wts, i)) for i in range(p)], eps=[float(x) for x in eps])
    if any(worst_y(M, [w - 1] * nb, msbs, wts, i) < eps[i] * (1 - tol) or wts[j] is None or w < wts[j] for i in range(p) for j in range(nb)):
        m.seen('below a threshold')
    big = rounded(rng, sh, M, ub, [w] * nb, msbs, wts, 25)
    m.ok('rounded runs', all(b <= e * (1 + tol) for b, e in zip(big, eps)), 'with the uniform word-length, an output error exceeds its constraint', w=w, errors=[float(b) for b in big], eps=[float(e) for e in eps])
    # several word-lengths
    fn = rng.choice(['xmpl.dat', 'prob.dat', 'a b.dat'])
    d = os.path.join(core.SCRATCH, 'ampl')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    wmax = rng.choice([64, 32, 17])
    kw = {} if wmax == 64 else {'wmax': wmax}
    ws = R.optimalWL(col(ub), col(eps), AMPLfilename=fn, AMPLpath=d, **kw)
    m.ok('several word-lengths', len(ws) == nb and all(int(x) == x for x in ws), 'one integer word-length by variable', got=ws)
    ws = [int(x) for x in ws]
    for i in range(p):
        m.ok('several word-lengths', worst_y(M, ws, msbs, wts, i) <= eps[i] * (1 + tol), 'the word-lengths do not meet the error constraint of an output', w=ws, output=i,
             error=float(worst_y(M, ws, msbs, wts, i)), eps=float(eps[i]), thresholds=wts)
    # (each variable has an equal share of the error)
    share = lambda j, w, i: M.E[i][j] * F(2) ** (msbs[j] - w + (1 if wts[j] is None or w < wts[j] else 0)) * nb / eps[i]
    m.ok('several word-lengths minimal', all(any(share(j, ws[j] - 1, i) >= 1 - tol for i in range(p)) for j in range(nb)), 'a smaller word-length gives the variable its equal share of the error', w=ws,
         shares=[[float(share(j, ws[j] - 1, i)) for i in range(p)] for j in range(nb)])
    big = rounded(rng, sh, M, ub, ws, msbs, wts, 25)
    m.ok('rounded runs', all(b <= e * (1 + tol) for b, e in zip(big, eps)), 'with the word-lengths, an output error exceeds its constraint', w=ws, errors=[float(b) for b in big], eps=[float(e) for e in eps])
    m.ok('AMPL', os.listdir(d) == [fn], 'the optimisation data are not in the file asked', files=os.listdir(d))
    with open(os.path.join(d, fn)) as f:
        ampl(m, f.read(), sh, M, msbs, wts, eps, wmax)


def ampl(m, text, sh, M, msbs, wts, eps, wmax):
    l, n, p, q = sh.size
    nb = l + n + p
    text = '\n'.join(x for x in text.split('\n') if not x.lstrip().startswith('#'))
    par = {}
    for st in text.split(';'):
        mm = re.match(r'\s*param\s+(\w+)\s*(:[\d\s]+)?:=(.*)$', st, re.S)
        if mm:
            par[mm.group(1)] = (mm.group(2), mm.group(3))
    m.ok('AMPL', set(par) == {'p', 'np', 'u', 'E', 'eps', 'wtilde'} and re.match(r'\s*data\s*;', text) is not None, 'the parameters are not those of the problem', got=sorted(par))

    def vec(name, size):
        t = par[name][1].split('\n')
        t = [x.split() for x in t if x.strip()]
        return [F(b) if b != 'Infinity' else None for a, b in t] if [int(a) for a, _ in t] == list(range(1, size + 1)) else 'bad indexes'
    try:
        m.ok('AMPL', int(par['p'][1]) == p and int(par['np'][1]) == nb, 'wrong dimensions in the file', p=par['p'], np=par['np'])
        m.ok('AMPL', vec('u', nb) == [wmax] * nb, 'wrong bounds of the word-lengths in the file', got=par['u'])
        m.ok('AMPL', vec('wtilde', nb) == wts, 'wrong thresholds in the file', got=par['wtilde'], expected=wts)
        m.ok('AMPL', all(float(a) == float(b) for a, b in zip(vec('eps', p), eps)) and len(vec('eps', p)) == p, 'wrong constraints in the file', got=par['eps'], expected=eps)
        cols = [int(x) for x in par['E'][0][1:].split()]
        rows = [x.split() for x in par['E'][1].split('\n') if x.strip()]
        E = [[F(v) for v in x[1:]] for x in rows]
        m.ok('AMPL', cols == list(range(1, nb + 1)) and [int(x[0]) for x in rows] == list(range(1, p + 1)), 'wrong indexes of the matrix in the file', got=par['E'])
        m.ok('AMPL', all(abs(E[i][j] - M.E[i][j] * F(2) ** msbs[j]) <= abs(M.E[i][j] * F(2) ** msbs[j]) / 10 ** 13 + max(M.E[ii][jj] * F(2) ** msbs[jj] for ii in range(p) for jj in range(nb)) / 10 ** 14 for i in range(p) for j in range(nb)),
             'wrong coefficients of the constraints in the file', got=par['E'][1], expected=[[float(M.E[i][j] * F(2) ** msbs[j]) for j in range(nb)] for i in range(p)])
    except (ValueError, KeyError, IndexError, TypeError) as e:
        m.ok('AMPL', False, 'the file cannot be read: %r' % e, text=text)


def structured(m, rng, i):
    """filters implemented by structures"""
    from fixif.LTI import Filter
    n = rng.randint(1, 3)
    # poles inside a small circle
    den = [F(1)]
    for _ in range(n):
        r = F(rng.randint(-8, 8), 16)
        den = [a - r * b for a, b in zip(den + [F(0)], [F(0)] + den)]
    num = [o.dyadic(rng, 4, 0, 2, 0) for _ in range(n + 1)]
    f = Filter(num=[float(x) for x in num], den=[float(x) for x in den])
    R = rng.choice([lambda: St.DFI(f), lambda: St.DFI(f, transposed=True), lambda: St.DFII(f), lambda: St.State_Space(f)])()
    sh = Shadow([o.fmat(x) for x in R.JtoS], R.size)
    ub, eps = bounds(rng, sh, False)
    m.case({'structure': R.structureName, 'num': [float(x) for x in num], 'den': [float(x) for x in den], 'u_bar': [float(x) for x in ub], 'eps': [float(x) for x in eps]})
    M = Model(sh, 70, 0)
    l, n, p, q = sh.size
    if not all(any(r) for r in M.W):
        m.note('unreached variables')
        return
    check_msb(m, rng, R, sh, M, ub, False)
    if all(any(M.E[i][j] for i in range(p)) for j in range(l + n + p)):
        check_wl(m, rng, R, sh, M, ub, eps, False)


MODEL = []


def model(m, rng, i):
    """the model given to the solver has the same solutions as the problem (interpreted on random word-lengths)"""
    if not MODEL:
        with open(os.path.join(core.REPO, 'fixif', 'SIF', 'templates', 'w_optimal.mod')) as f:
            text = f.read()
        try:
            MODEL.append(AmplModel(text))
        except Unreadable as e:
            # (AMPL code that this small interpreter does not know)
            m.note('AMPL model: not understood (%s)' % e)
            raise StopCase()
    mod = MODEL[0]
    p, nb = rng.randint(1, 3), rng.randint(1, 4)
    wt = [rng.randint(3, 9) for _ in range(nb)]
    u = [rng.randint(w + 1, w + 8) for w in wt]
    E = [[F(rng.randint(0, 64), 8) for _ in range(nb)] for _ in range(p)]
    w0 = [rng.randint(2, x) for x in u]
    bound = lambda w, r: sum(e * F(2) ** (-x + int(x < t)) for e, x, t in zip(r, w, wt))
    # (constraints reached exactly, or nearly, by some word-lengths)
    eps = [bound(w0, r) * rng.choice([1, 1, 1 + F(1, 2 ** 20), 1 - F(1, 2 ** 20), 2]) or F(1) for r in E]
    m.case({'AMPL model': [p, nb], 'wtilde': wt, 'u': u, 'eps': [float(x) for x in eps]}, key=(wt, u, E, eps))
    val = {('p',): F(p), ('np',): F(nb)}
    val.update({('u', F(j + 1)): F(u[j]) for j in range(nb)})
    val.update({('wtilde', F(j + 1)): F(wt[j]) for j in range(nb)})
    val.update({('eps', F(k + 1)): eps[k] for k in range(p)})
    val.update({('E', F(k + 1), F(j + 1)): E[k][j] for k in range(p) for j in range(nb)})
    for _ in range(6):
        w = list(w0) if rng.random() < 0.3 else [rng.choice([a, rng.randint(1, b + 1), t, t - 1]) for a, b, t in zip(w0, u, wt)]
        ref = all(2 <= a <= b for a, b in zip(w, u)) and all(bound(w, r) <= e for r, e in zip(E, eps))
        v = dict(val)
        v.update({('w', F(j + 1)): F(w[j]) for j in range(nb)})
        good = [d for d in product((0, 1), repeat=nb) if mod.holds(v | {('delta', F(j + 1)): F(d[j]) for j in range(nb)})]
        m.ok('AMPL model', bool(good) == ref and (not good or good == [tuple(int(a < t) for a, t in zip(w, wt))]), 'the model of the solver does not admit the word-lengths that meet the constraints (and them only)',
             w=w, admissible=ref, deltas=good, errors=[float(bound(w, r)) for r in E])
        m.ok('AMPL model', mod.objective is not None and mod.ev(mod.objective, v, {}) == sum(w), 'the objective is not the sum of the word-lengths', w=w)
        m.seen('admissible word-lengths' if ref else 'word-lengths refused')


WORKLOADS = [Workload('AMPL model', model, 60, 1500), Workload('msb', msb, 400, 6000), Workload('word-lengths', wordlengths, 240, 5000), Workload('structures', structured, 60, 1000)]
EXPECT = {'several word-lengths minimal': 150, 'msb': 2000, 'msb minimal': 1000, 'uniform': 300, 'uniform minimal': 150, 'rounded runs': 400, 'several word-lengths': 400, 'AMPL': 1000, 'peaks that are powers of two': 20, 'below a threshold': 20, 'worst-case runs': 500}
