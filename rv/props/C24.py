# coding: utf-8
"""C24: comparisons and displays of systems tell the truth"""
import cmath
import math
import re
from fractions import Fraction as F
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import mpmath
import numpy
from rv import oracle as o
from rv import sif
from rv.core import Workload
from fixif.LTI import dTF, dSS, Filter
from fixif.SIF import SIF, Realization
from fixif.func_aux import MPFMatrix

PROPERTY = 'C24'
RULE = ('pairs of transfer functions or state-space systems that are equal (also in another basis, with useless states, padded with null coefficients) or differ in one '
        'place of the coefficients / of the first samples of the impulse response by a half, twice or many times the tolerance (default or given); the text of random transfer functions, '
        'state-spaces, realizations and matrices is parsed back; Bode plots are read back from the figure; non-trivial when the order is positive')
ASSUMPTIONS = ['dyadic coefficients, so that the differences are exact', 'numpy prints 8 significant digits, mpmath 15', 'no pole of the plotted systems near the unit circle']


def refuses(f):
    """True when the comparison refuses (AssertionError), False when it accepts"""
    try:
        f()
    except AssertionError:
        return True
    return False


EPS = [(None, 1e-7), (None, 1e-7), (1e-3, 1e-3), (0.5, 0.5), (1e-12, 1e-12)]


def close_tf(m, rng, i):
    """dTF.assert_close: norm of the differences of the coefficients, whatever the lengths"""
    n = rng.randint(0, 8)
    num = [o.dyadic(rng, 6, -2, 2, 0.2) for _ in range(n + 1)]
    den = [F(1)] + [o.dyadic(rng, 6, -2, 2, 0.2) for _ in range(n)]
    given, eps = rng.choice(EPS)
    num2, den2 = list(num), list(den)
    pad = rng.choice([0, 0, 0, 1, 2, 3])
    num2 += [F(0)] * pad
    den2 += [F(0)] * pad
    kind = rng.choice(['equal', 'below', 'above', 'far', 'several', 'many'])
    if kind == 'many' and len(num2) < 4:
        kind = 'several'
    f = {'equal': 0, 'below': 0.5, 'above': 2, 'far': 1e4, 'several': 0.3, 'many': 0.7}[kind]
    d = F(eps * f) * rng.choice([1, -1])
    d = F(2) ** round(math.log2(abs(d))) * (1 if d > 0 else -1) if d and kind not in ('several', 'many') else d
    if kind == 'below':
        d = d if abs(d) < eps * 0.8 else d / 2
    if kind == 'above':
        d = d if abs(d) > eps * 1.2 else d * 2
    which = rng.choice(['num', 'den']) if len(den2) > 1 else 'num'
    v = num2 if which == 'num' else den2
    if kind == 'many':
        # every difference is below the tolerance, but not their (Euclidean) norm
        at = rng.randint(4, len(v)) if which == 'num' or len(v) > 4 else 4
        which, v = ('num', num2) if len(v) - (which == 'den') < 4 else (which, v)
        at = min(at, len(v) - (which == 'den'))
        for j in rng.sample(range(0 if which == 'num' else 1, len(v)), at):
            v[j] += F(float(d)) * rng.choice([-1, 1])
    elif kind == 'several':
        # every difference is below the tolerance, as is their norm
        k = rng.randint(1, 3)
        for j in rng.sample(range(0 if which == 'num' else 1, len(v)), min(k, len(v) - (which == 'den'))):
            v[j] += F(float(d))
        at = k
    else:
        at = rng.randrange(0 if which == 'num' else 1, len(v))
        v[at] += d
    other = None
    if kind in ('above', 'far') and rng.random() < 0.4:
        # a second difference, that compensates the first one in a sum
        places = [(w, j) for w, x in (('num', num2), ('den', den2)) for j in range(0 if w == 'num' else 1, len(x)) if (w, j) != (which, at)]
        if places:
            other = rng.choice(places)
            (num2 if other[0] == 'num' else den2)[other[1]] -= d
    A, B = dTF([float(x) for x in num], [float(x) for x in den]), dTF([float(x) for x in num2], [float(x) for x in den2])
    kw = {} if given is None else {'eps': given}
    m.case({'dTF': [[float(x) for x in num], [float(x) for x in den]], 'difference': kind, 'in': which, 'at': at, 'compensated': other, 'padding': pad, 'eps': eps}, nontrivial=n > 0)
    want = kind in ('above', 'far', 'many')
    for nm, X, Y in (('A.assert_close(B)', A, B), ('B.assert_close(A)', B, A)):
        m.ok('dTF closeness', refuses(lambda: X.assert_close(Y, **kw)) == want, '%s %s' % (nm, 'accepts different systems' if want else 'refuses close systems'), difference=float(d), eps=eps)
    m.ok('dTF closeness', not refuses(lambda: A.assert_close(A, **kw)), 'a system is not close to itself')


def delay_line(k, i, j, p, q, d):
    """a system with the only sample h(k)[i][j] = d"""
    A = o.zeros(max(k, 1), max(k, 1))
    for r in range(1, k):
        A[r][r - 1] = F(1)
    n = len(A)
    B, C, D = o.zeros(n, q), o.zeros(p, n), o.zeros(p, q)
    if k == 0:
        D[i][j] = d
    else:
        B[0][j] = F(1)
        C[i][n - 1] = d
    return A, B, C, D


def close_ss(m, rng, i):
    """dSS.assert_close: the first samples of the impulse response"""
    n, p, q = rng.randint(1, 5), rng.randint(1, 3), rng.randint(1, 3)
    A, B, C, D = [[[o.dyadic(rng, 4, -2, 1, 0.25) for _ in range(b)] for _ in range(a)] for a, b in ((n, n), (n, q), (p, n), (p, q))]
    # unimodular change of basis (exact)
    T, Ti = o.eye(n), o.eye(n)
    for _ in range(rng.randint(0, 3) if n > 1 else 0):
        r, c = rng.sample(range(n), 2)
        k = rng.choice([-1, 1])
        E, Ei = o.eye(n), o.eye(n)
        E[r][c], Ei[r][c] = F(k), F(-k)
        T, Ti = o.mul(T, E), o.mul(Ei, Ti)
    A2, B2, C2, D2 = o.mul(Ti, o.mul(A, T)), o.mul(Ti, B), o.mul(C, T), [list(r) for r in D]
    given, eps = rng.choice([(None, 1e-5), (None, 1e-5), (1e-3, 1e-3), (0.5, 0.5)])
    kind = rng.choice(['equal', 'below', 'above', 'far'])
    d = F(0) if kind == 'equal' else F(2) ** (math.floor(math.log2(eps)) + {'below': -1, 'above': 2, 'far': 9}[kind]) * rng.choice([1, -1])
    k, r, c = rng.randint(0, 3), rng.randrange(p), rng.randrange(q)
    a, b, cc, dd = delay_line(k, r, c, p, q, d)
    other = None
    if kind != 'equal' and rng.random() < 0.4:
        # a second difference, that compensates the first one in a sum
        k2, r2, c2 = rng.choice([k, k, rng.randint(0, 3)]), rng.randrange(p), rng.randrange(q)
        if (k2, r2, c2) != (k, r, c):
            other = (k2, r2, c2)
            a2, b2, cc2, dd2 = delay_line(k2, r2, c2, p, q, -d)
            z1, z2 = len(a), len(a2)
            a = [x + [F(0)] * z2 for x in a] + [[F(0)] * z1 + x for x in a2]
            b, cc, dd = b + b2, [x + y for x, y in zip(cc, cc2)], [[x + y for x, y in zip(u, v)] for u, v in zip(dd, dd2)]
    na = len(a)
    A2 = [x + [F(0)] * na for x in A2] + [[F(0)] * n + x for x in a]
    B2 = B2 + b
    C2 = [x + y for x, y in zip(C2, cc)]
    D2 = [[x + y for x, y in zip(u, v)] for u, v in zip(D2, dd)]
    S, R = dSS(*[o.npmat(x) for x in (A, B, C, D)]), dSS(*[o.npmat(x) for x in (A2, B2, C2, D2)])
    kw = {} if given is None else {'eps': given}
    m.case({'dSS': (n, p, q), 'difference': kind, 'sample': k, 'entry': (r, c), 'compensated': other, 'eps': eps, 'A': o.sbm(A[:2])}, key=(A, B, C, D, kind, k, r, c, other))
    want = kind in ('above', 'far')
    for nm, X, Y in (('S.assert_close(R)', S, R), ('R.assert_close(S)', R, S)):
        m.ok('dSS closeness', refuses(lambda: X.assert_close(Y, **kw)) == want, '%s %s' % (nm, 'accepts different systems' if want else 'refuses close systems'), difference=float(d), sample=k, eps=eps)
    m.ok('dSS closeness', not refuses(lambda: S.assert_close(S, **kw)), 'a system is not close to itself')


def terms(line):
    """{power: coefficient} of a displayed polynomial of 1/z"""
    r = {}
    for t in line.strip().split(' + '):
        c, _, e = t.partition('z^')
        k = int(e) if e else 0
        if k in r:
            raise ValueError('power %d displayed twice' % k)
        r[k] = float(c)
    return r


def text_tf(m, rng, i):
    n = rng.randint(0, 8)
    val = (lambda: rng.uniform(-3, 3)) if rng.random() < 0.5 else (lambda: rng.choice([0.0, 1.0, -1.0, 0.5, 1e-12, -3e22, rng.gauss(0, 1) * 10 ** rng.randint(-9, 9)]))
    num, den = [val() for _ in range(rng.choice([n, n, max(0, n - 2)]) + 1)], [1.0] + [val() for _ in range(n)]
    H = dTF(num, den)
    s = str(H)
    m.case({'text of': [num, den]}, nontrivial=n > 0)
    L = [x for x in s.split('\n') if x.strip()]
    try:
        bar = L[1].partition('H(z) =')[2].strip()
        got = terms(L[0]), terms(L[2])
        good = len(L) == 3 and 'H(z) =' in L[1] and set(bar) == {'-'} and len(bar) >= max(len(L[0].strip()), len(L[2].strip()))
    except (ValueError, IndexError) as e:
        got, good = repr(e), False
    ref = tuple({-k: float(x) for k, x in enumerate(numpy.asarray(v).ravel())} for v in (H.num, H.den))
    m.ok('text of a dTF', good and got == ref, 'the text is not the fraction', text=s, expected=ref)
    # both polynomials lie under / over the bar of the fraction
    st = len(L[1]) - len(L[1].partition('H(z) =')[2].lstrip()) if len(L) == 3 else 0
    m.ok('text of a dTF', len(L) == 3 and all(len(x) - len(x.lstrip()) >= st and len(x.rstrip()) <= len(L[1].rstrip()) for x in (L[0], L[2])), 'the numerator or denominator is not in front of the bar', text=s)


def numbers(txt):
    """the rows of numbers of a printed numpy matrix"""
    rows = []
    for r in re.findall(r'\[([^\[\]]*)\]', txt):
        rows.append([float(x) for x in r.replace(',', ' ').split()])
    return rows


def near(got, ref, rel, absolute=0.0):
    """same shape, same values within the digits displayed"""
    ref = [[float(x) for x in r] for r in numpy.asarray(ref)]
    return [len(r) for r in got] == [len(r) for r in ref] and all(abs(x - y) <= rel * abs(y) + absolute for r, s in zip(got, ref) for x, y in zip(r, s))


def top(M):
    a = numpy.abs(numpy.asarray(M, dtype=float))
    return float(a.max()) if a.size else 0.0


def text_ss(m, rng, i):
    n, p, q = rng.randint(1, 9), rng.randint(1, 4), rng.randint(1, 4)
    if i % 7 == 0:
        n = rng.randint(10, 14)
    M = [[[rng.choice([0.0, 1.0, -0.5, rng.uniform(-2, 2)]) for _ in range(b)] for _ in range(a)] for a, b in ((n, n), (n, q), (p, n), (p, q))]
    S = dSS(*M)
    m.case({'text of': (n, p, q), 'A': M[0][0]})
    for s in (str(S), repr(S)):
        h = re.search(r'\((\d+) states?, (\d+) outputs? and (\d+) inputs?\)', s)
        m.ok('text of a dSS', bool(h) and tuple(int(x) for x in h.groups()) == (n, p, q), 'the sizes displayed are not those of the system', text=s[:200])
        part = re.split(r'\b([ABCD])= ', s)
        got = {part[k]: numbers(part[k + 1]) for k in range(1, len(part) - 1, 2)}
        m.ok('text of a dSS', list(part[1::2]) == list('ABCD'), 'the matrices displayed are not A, B, C and D', text=s[:300])
        for x, v in zip('ABCD', M):
            m.ok('text of a dSS', near(got.get(x, []), v, 1e-6, 1e-7), 'the matrix %s displayed is not the one of the system' % x, got=got.get(x), expected=v)


def text_sif(m, rng, i):
    l, n, p, q = rng.choice([0, 1, 2, 3]), rng.randint(1, 5), rng.randint(1, 3), rng.randint(1, 3)
    mats = []
    for k, (a, b) in enumerate(sif.shapes(l, n, p, q)):
        mats.append([[o.dyadic(rng, 5, -2, 2, 0.4) for _ in range(b)] for _ in range(a)])
    for r in range(l):
        for c in range(l):
            mats[0][r][c] = F(int(r == c)) if c >= r else mats[0][r][c]
    X = tuple(numpy.matrix(numpy.array([[float(x) for x in r] for r in M], dtype=float).reshape(s)) for M, s in zip(mats, sif.shapes(l, n, p, q)))
    real = rng.random() < 0.5 and p == q == 1
    nm = 'F%d' % rng.randrange(1000)
    if real:
        f = Filter(num=[0.5, 0.25], den=[1.0, 0.5], name=nm)
        sn = rng.choice(['State Space', 'Direct Form I', 'my structure %d' % rng.randrange(100)])
        R = Realization(f, X, structureName=sn)
    else:
        R = SIF(X)
    s = str(R)
    m.case({'text of': (l, n, p, q), 'realization': real, 'text': s[:120]})
    if real:
        m.ok('text of a realization', sn in s.split('\n')[0] and nm in s.split('\n')[0] and sn in R.name and nm in R.name, 'the structure or the filter is not displayed', text=s[:200])
    h = re.search(r'l=(\d+), n=(\d+), p=(\d+), q=(\d+) \((\d+) intermediate variables?, (\d+) states?, (\d+) inputs?, (\d+) outputs?\)', s)
    m.ok('text of a realization', bool(h) and tuple(int(x) for x in h.groups()) == (l, n, p, q, l, n, q, p), 'the sizes displayed are not those of the realization', text=s[:200])
    part = re.split(r'\b(d?Z) = \n', s)
    got = {part[k]: numbers(part[k + 1]) for k in range(1, len(part) - 1, 2)}
    m.ok('text of a realization', near(got.get('Z', []), R.Z, 1e-6, 1e-7 * (1 + top(R.Z))), 'the matrix Z displayed is not the one of the realization', text=s, expected=R.Z)
    m.ok('text of a realization', near(got.get('dZ', []), R.dZ, 1e-6, 1e-7), 'the matrix dZ displayed is not the one of the realization', text=s, expected=R.dZ)


def text_mp(m, rng, i):
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    A = [[o.dyadic(rng, rng.choice([5, 40, 80]), -30, 30, 0.1) for _ in range(b)] for _ in range(a)]
    P = MPFMatrix(o.mpmat(A))
    s = str(P)
    m.case({'text of': (a, b), 'A00': str(A[0][0])[:40]})
    rows = [[mpmath.mpf(x) for x in r.split()] for r in re.findall(r'\[([^\[\]]*)\]', s)]
    m.ok('text of a matrix', [len(r) for r in rows] == [b] * a and all(abs(o.frac(x) - y) <= F(1, 10 ** 12) * abs(y) for r, t in zip(rows, A) for x, y in zip(r, t)),
         'the matrix displayed is not the matrix', text=s[:400])


def bode(m, rng, i):
    # stable, with poles and zeros away from the unit circle
    roots = lambda k, lo, hi: [cmath.rect(rng.uniform(lo, hi), rng.uniform(0.1, 3.0)) for _ in range(k)]
    def poly(rs, real):
        c = [1.0]
        for r in rs:
            c = list(numpy.convolve(c, [1, -2 * r.real, abs(r) ** 2]))
        for r in real:
            c = list(numpy.convolve(c, [1, -r]))
        return c
    den = poly(roots(rng.randint(0, 2), 0.1, 0.85), [rng.uniform(-0.8, 0.8) for _ in range(rng.randint(0, 2))])
    num = [x * rng.choice([1, 0.1, -3, 20]) for x in poly(roots(rng.randint(0, 2), 0.1, 0.8), [rng.uniform(-0.7, 0.7)] if rng.random() < 0.5 else [])]
    if rng.random() < 0.4:
        num = [0.0] * rng.randint(1, 2) + num
    if rng.random() < 0.3:
        # very small or large gains
        num = [x * 2.0 ** rng.choice([-90, -60, -48, -45, 40]) for x in num] if rng.random() < 0.7 else [num[0] * 2.0 ** -60] + num[1:]
    H = dTF(num, den)
    wmin = rng.choice([None, 1e-3, 0.05, 0.5])
    m.case({'bode': [num, den], 'wmin': wmin}, nontrivial=H.order > 0)
    plt.close('all')
    H.bode(**({} if wmin is None else {'wmin': wmin}))
    wmin = wmin or 1e-3
    axs = plt.gcf().axes
    m.need('Bode plot', len(axs) == 2, 'the Bode plot has not two diagrams', got=len(axs))
    curves = []
    for ax in axs:
        c = [x for x in ax.lines if len(numpy.ravel(x.get_xdata())) > 50]
        m.need('Bode plot', len(c) == 1, 'a diagram has not one curve')
        curves.append((numpy.ravel(c[0].get_xdata()), numpy.ravel(c[0].get_ydata())))
    n, d = [float(x) for x in numpy.ravel(H.num)], [float(x) for x in numpy.ravel(H.den)]
    labels = [ax.get_ylabel() for ax in axs]
    m.ok('Bode plot', 'dB' in labels[0] and 'hase' in labels[1] and 'rad' in axs[1].get_xlabel(), 'the diagrams are not labelled as magnitude in dB and phase, against the frequency in rad/s', labels=labels)
    m.ok('Bode plot', all(ax.get_xscale() == 'log' for ax in axs), 'the frequencies are not on a logarithmic scale')
    for (w, y), what in zip(curves, ('magnitude', 'phase')):
        ok = abs(w[0] - wmin) < 1e-9 and 3.1 < w[-1] <= math.pi and all(numpy.diff(w) > 0)
        m.ok('Bode plot', bool(ok), 'the frequencies of the plot are not those from wmin to pi', got=(w[0], w[-1]), wmin=wmin)
        for k in rng.sample(range(len(w)), 15) + [0, len(w) - 1]:
            z = cmath.exp(-1j * w[k])
            h = sum(c * z ** j for j, c in enumerate(n)) / sum(c * z ** j for j, c in enumerate(d))
            if what == 'magnitude':
                good = abs(y[k] - 20 * math.log10(abs(h))) < 1e-6
            else:
                e = (y[k] - math.degrees(cmath.phase(h))) / 360
                good = abs(e - round(e)) < 1e-6
            m.ok('Bode plot', bool(good), 'the %s plotted is not the one of the transfer function' % what, w=float(w[k]), got=float(y[k]), h=h)
    plt.close('all')


WORKLOADS = [Workload('closeness of dTF', close_tf, 1500, 20000), Workload('closeness of dSS', close_ss, 1200, 15000), Workload('text of dTF', text_tf, 500, 6000),
             Workload('text of dSS', text_ss, 250, 3000), Workload('text of SIF', text_sif, 250, 3000), Workload('text of matrices', text_mp, 250, 3000), Workload('bode', bode, 60, 500)]
EXPECT = {'dTF closeness': 3000, 'dSS closeness': 3000, 'text of a dTF': 900, 'text of a dSS': 2000, 'text of a realization': 600, 'text of a matrix': 200, 'Bode plot': 500}
