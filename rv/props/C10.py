# coding: utf-8
"""C10: multiple-precision systems"""
from fractions import Fraction as F
import numpy
import mpmath
from rv import oracle as o
from rv.core import Workload
from rv.props.C01 import entry, mat, frep
from fixif.LTI import dSS, dSSmp, dTF, dTFmp

PROPERTY = 'C10'
RULE = ('random multiple-precision systems (0..4 states, 1..3 inputs/outputs, entries of 1..300 bits or doubles, very different exponents) and transfer functions '
        '(orders 0..5), at ambient precisions 10..400, combined, simulated (with initial states, exactly or rounded) and converted; '
        'non-trivial when the exact values do not fit the ambient precision')
ASSUMPTIONS = ['finite real coefficients', 'conversion to a transfer function is required to be accurate to the precision asked, relatively to the sums of moduli',
               'sollya is replaced by an exact stand-in']
PRECS = [10, 24, 53, 53, 53, 100, 400]


def sysmats(rng, kind, n=None, p=None, q=None, scale=20):
    n = (0 if rng.random() < 0.07 else rng.randint(1, 4)) if n is None else n
    p = p or rng.randint(1, 3)
    q = q or rng.randint(1, 3)
    return tuple(mat(rng, kind, a, b, scale) for a, b in ((n, n), (n, q), (p, n), (p, q)))


def build(kind, M):
    n, q = len(M[0]), len(M[3][0]) if M[3] else 0
    return [mpm(x, c) if kind == 'mp' else o.npmat(x, c) for x, c in zip(M, (n, q, n, q))]


def mpm(A, cols):
    """mpmath matrix, possibly without row or column"""
    return o.mpmat(A) if A and A[0] else mpmath.zeros(len(A), cols)


def small(M):
    return [[[x if abs(x) < F(2) ** 300 and (x == 0 or abs(x) > F(2) ** -300) else F(1, 2) for x in r] for r in X] for X in M]


def vals(S):
    return tuple(o.fmat(x) for x in (S.A, S.B, S.C, S.D))


def ambient(m, prec, what):
    m.ok('ambient precision', mpmath.mp.prec == prec, '%s changed the working precision' % what, now=mpmath.mp.prec, was=prec)
    mpmath.mp.prec = 53


def combine(m, rng, i):
    p, q = rng.randint(1, 3), rng.randint(1, 3)
    k1, k2 = rng.choice(['mp', 'double']), rng.choice(['mp', 'double', 'dSS'])
    M1 = small(sysmats(rng, k1, None, p, q))
    M2 = small(sysmats(rng, 'mp' if k2 == 'mp' else 'double', None, p, q))
    if rng.random() < 0.3:
        # systems that share some of their matrices
        if k1 == 'mp' and k2 != 'mp':
            k1, M1 = 'double', small(sysmats(rng, 'double', None, p, q))
        if rng.random() < 0.8:
            M2 = small(sysmats(rng, 'mp' if k2 == 'mp' else 'double', len(M1[0]), p, q))
        M2 = [x if o.shape(x) == o.shape(y) and rng.random() < 0.6 else y for x, y in zip(M1, M2)]
    S1 = dSSmp(*build(k1, M1))
    S2 = dSSmp(*build(k2, M2)) if k2 != 'dSS' else dSS(*build('double', M2))
    prec = rng.choice(PRECS)
    op = '+-'[i % 2]
    n1, n2 = len(M1[0]), len(M2[0])
    N = n1 + n2 + 2
    h1, h2 = o.impulse(*M1, N), o.impulse(*M2, N)
    ref = [o.add(a, b) if op == '+' else o.sub(a, b) for a, b in zip(h1, h2)]
    m.case({'op': op, 'kinds': [k1, k2], 'sizes': [(n1, p, q), (n2, p, q)], 'prec': prec}, nontrivial=any(o.rnd(x, prec) != x for X in M1 + M2 for r in X for x in r), key=(op, M1, M2, prec))
    mpmath.mp.prec = prec
    R = S1 + S2 if op == '+' else S1 - S2
    ambient(m, prec, 'dSSmp %s' % op)
    m.ok('sizes', (R.n, R.p, R.q) == (n1 + n2, p, q), 'wrong sizes')
    m.ok('exact', o.impulse(*vals(R), N) == ref, 'the response of S1 %s S2 is not exactly the operation' % op, kinds=(k1, k2))
    m.ok('operands untouched', list(map(list, vals(S1))) == list(map(list, M1)) and list(map(list, vals(S2))) == list(map(list, M2)), 'an operand was modified')


def simulate(m, rng, i):
    kind = rng.choice(['mp', 'double'])
    long = i % 15 == 7
    M = sysmats(rng, kind, rng.randint(1, 2), 1, rng.randint(1, 2)) if long else sysmats(rng, kind)
    if long:
        # (full doubles, of moderate magnitude)
        M = [[[F(float(rng.choice([0, 1, 1, 1, 1]) * rng.uniform(-1, 1))) for _ in r] for r in X] for X in M]
    M = small(M)
    n, p, q = len(M[0]), len(M[2]), len(M[3][0])
    S = dSSmp(*build(kind, M))
    Tn = rng.randint(60, 160) if long else rng.randint(1, 6)
    ku, kx = rng.choice(['mp', 'double']), rng.choice(['mp', 'double', None])
    u = small([mat(rng, ku, q, Tn, 20)])[0]
    x0 = small([mat(rng, kx, n, 1, 20)])[0] if kx else None
    exact = rng.random() < 0.6
    prec = rng.choice(PRECS)
    U = o.mpmat(u) if ku == 'mp' else o.npmat(u)
    X0 = None if x0 is None else (mpm(x0, 1) if kx == 'mp' else o.npmat(x0, 1))
    m.case({'simulate': 'exact' if exact else 'rounded', 'size': (n, p, q), 'T': Tn, 'kinds': [kind, ku, kx], 'prec': prec}, nontrivial=Tn > 1, key=(M, u, x0, exact, prec))
    x = x0 if x0 is not None else o.zeros(n, 1)
    ref = []
    for k in range(Tn):
        uk = [[r[k]] for r in u]
        ref.append(o.add(o.mul(M[2], x, n, 1), o.mul(M[3], uk)))
        x = o.add(o.mul(M[0], x, n, 1), o.mul(M[1], uk))
        if not exact:
            x = [[o.rnd(v[0], 53)] for v in x]
    mpmath.mp.prec = prec
    Y = S.simulate(U, exact=exact, x0=X0) if x0 is not None or rng.random() < 0.5 else S.simulate(U, exact)
    ambient(m, prec, 'simulate')
    got = o.fmat(Y)
    m.ok('simulation', o.shape(got) == (p, Tn) and all([[got[r][k]] for r in range(p)] == ref[k] for k in range(Tn)),
         'the %s simulation is wrong' % ('exact' if exact else 'rounded'), x0=x0 is not None, first=[k for k in range(Tn) if o.shape(got) == (p, Tn) and [[got[r][k]] for r in range(p)] != ref[k]][:1])
    m.ok('operands untouched', frep(U) == u and (x0 is None or frep(X0) == x0) and list(map(list, vals(S))) == list(map(list, M)), 'an operand was modified')


def simulate_rounded(m, rng, i):
    M = small(sysmats(rng, rng.choice(['mp', 'double']), None, rng.choice([1, 1, 2, 3]), rng.randint(1, 2)))
    n, p, q = len(M[0]), len(M[2]), len(M[3][0])
    S = dSSmp(*build('mp', M))
    Tn = rng.randint(1, 6)
    u = small([mat(rng, 'double', q, Tn, 20)])[0]
    prec = rng.choice([53, 53, 24, 11, 5, 54, 64, 80, 120])
    U = o.npmat(u) if rng.random() < 0.5 else o.mpmat(u)
    m.case({'simulate_rounded': prec, 'size': (n, p, q), 'T': Tn}, nontrivial=Tn > 1, key=(M, u, prec))
    x = o.zeros(n, 1)
    ref = []
    for k in range(Tn):
        uk = [[r[k]] for r in u]
        ref.append([o.rnd(v[0], prec) for v in o.add(o.mul(M[2], x, n, 1), o.mul(M[3], uk))])
        x = [[o.rnd(v[0], prec)] for v in o.add(o.mul(M[0], x, n, 1), o.mul(M[1], uk))]
        if o.maxabs(x) > F(2) ** 1000 or any(v[0] and abs(v[0]) < F(2) ** -1000 for v in x):
            return
    amb = rng.choice(PRECS)
    mpmath.mp.prec = amb
    Y = S.simulate_rounded(U) if prec == 53 and rng.random() < 0.5 else S.simulate_rounded(U, prec)
    ambient(m, amb, 'simulate_rounded')
    ref = [ref[k][j] for j in range(p) for k in range(Tn)]
    m.ok('simulation', [y.value for y in Y] == ref, 'simulate_rounded: the outputs are not those of the system rounded at each step on %d bits' % prec,
         got=[y.value for y in Y], expected=ref)


def to_tf(m, rng, i):
    n = 0 if rng.random() < 0.05 else rng.randint(1, 6) if rng.random() < 0.95 else rng.randint(7, 10)
    kind = rng.choice(['dense', 'dense', 'repeated', 'delay', 'diag', 'tiny'])
    A = mat(rng, 'double', n, n, 3)
    A = [[o.rnd(x, 30) if F(1, 1000) < abs(x) < 10 else F(rng.randint(-64, 64), 64) for x in r] for r in A]
    if kind == 'repeated':
        v = F(rng.randint(-12, 12), 16)
        A = [[v if c == r else (F(rng.choice([0, 1])) if c == r + 1 else F(0)) for c in range(n)] for r in range(n)]
    elif kind == 'delay':
        A = [[F(int(c == r + 1)) for c in range(n)] for r in range(n)]
    elif kind == 'diag':
        A = [[F(rng.randint(-60, 60), 64) if c == r else F(0) for c in range(n)] for r in range(n)]
    sc = F(1) if kind != 'tiny' else F(1, 2 ** 40)
    B = [[F(rng.randint(-64, 64), 64) * sc] for _ in range(n)]
    C = [[F(rng.randint(-64, 64), 64) * sc for _ in range(n)]]
    D = [[F(rng.choice([0, 0, rng.randint(-64, 64)]), 64)]]
    prec = rng.choice([53, 64, 100, 200, 300])
    amb = rng.choice(PRECS)
    S = dSSmp(*[mpm(x, c) for x, c in zip((A, B, C, D), (n, 1, n, 1))])
    num, den = o.ss2tf(A, B, C, D)
    m.case({'to_dTFmp': kind, 'n': n, 'prec': prec, 'ambient': amb, 'A': o.sbm(A)}, nontrivial=n > 1, key=(A, B, C, D, prec, amb))
    mpmath.mp.prec = amb
    T = S.to_dTFmp(prec) if prec != 64 or rng.random() < 0.5 else S.to_dTFmp()
    ambient(m, amb, 'to_dTFmp')
    gn, gd = [o.frac(x) for x in T.num], [o.frac(x) for x in T.den]
    # scale of the coefficients: moduli everywhere
    an, ad = o.ss2tf(o.absm(A), o.absm(B), o.absm(C), o.absm(D))
    tn = max([abs(x) for x in an] + [abs(x) for x in num])
    td = max([abs(x) for x in ad] + [F(1)])
    tol = F(2) ** (4 + n - prec)
    good = len(gn) == len(num) and len(gd) == len(den) and all(abs(a - b) <= tol * td for a, b in zip(gd, den)) and all(abs(a - b) <= tol * max(tn, td * abs(D[0][0])) for a, b in zip(gn, num))
    m.ok('transfer function', good and gd[0] == 1, 'the transfer function is not the one of the system within %d bits' % prec, num=T.num, den=T.den, expected=([float(x) for x in num], [float(x) for x in den]))
    mim = dSSmp(*[o.mpmat(x) for x in sysmats(rng, 'mp', 2, 2, 1)])
    mpmath.mp.prec = amb
    m.raises('refusals', ValueError, lambda: mim.to_dTFmp(), 'transfer function of a MIMO system')
    ambient(m, amb, 'the failure of to_dTFmp')


def to_double(m, rng, i):
    M = small(sysmats(rng, 'mp'))
    S = dSSmp(*build('mp', M))
    amb = rng.choice(PRECS)
    m.case({'to_dSS': (S.n, S.p, S.q), 'ambient': amb}, key=M)
    mpmath.mp.prec = amb
    R = S.to_dSS()
    ambient(m, amb, 'to_dSS')
    ref = [[[F(o.todouble(x)) for x in r] for r in X] for X in M]
    m.ok('rounded conversion', isinstance(R, dSS) and [o.fmat(x) for x in (R.A, R.B, R.C, R.D)] == ref, 'to_dSS does not round each coefficient to nearest')
    mpmath.mp.prec = amb
    P = R.to_dSSmp()
    ambient(m, amb, 'to_dSSmp')
    m.ok('exact conversion', list(vals(P)) == ref, 'dSS.to_dSSmp is not exact')
    # transfer functions
    k = rng.randint(1, 6)
    num, den = [[entry(rng, 'mp', 20) for _ in range(k)], [F(1)] + [entry(rng, 'mp', 20) for _ in range(rng.choice([k - 1, rng.randint(0, 5)]))]]
    cols = rng.random() < 0.5
    b, a = o.mpmat([num]), o.mpmat([den])
    if cols:
        b, a = b.T, a.T
    T = dTFmp(b, a)
    mpmath.mp.prec = amb
    t = T.to_dTF()
    ambient(m, amb, 'to_dTF')
    L = max(len(num), len(den))
    got = [o.frac(x) for x in numpy.asarray(t.num).ravel()], [o.frac(x) for x in numpy.asarray(t.den).ravel()]
    exp = [F(o.todouble(x)) for x in num] + [F(0)] * (L - len(num)), [F(o.todouble(x)) for x in den] + [F(0)] * (L - len(den))
    m.ok('rounded conversion', got == exp, 'to_dTF does not round each coefficient to nearest', got=got, expected=exp)
    mpmath.mp.prec = amb
    U = t.to_dTFmp()
    ambient(m, amb, 'to_dTFmp')
    m.ok('exact conversion', ([o.frac(x) for x in U.num], [o.frac(x) for x in U.den]) == exp, 'dTF.to_dTFmp is not exact')


def tf_to_ss(m, rng, i):
    nn, nd = rng.randint(1, 6), rng.randint(1, 6)
    if rng.random() < 0.5:
        nn = nd
    if rng.random() < 0.05:
        nn = nd = 1
    num = [entry(rng, 'mp', 20) for _ in range(nn)]
    den = [F(1)] + [entry(rng, 'mp', 20) for _ in range(nd - 1)]
    n = max(nn, nd) - 1
    amb = rng.choice(PRECS)
    lay = rng.choice(['col', 'row', 'mixed'])
    b, a = o.mpmat([num]), o.mpmat([den])
    b = b.T if lay == 'col' else b
    a = a.T if lay in ('col', 'mixed') else a
    T = dTFmp(b, a)
    m.case({'to_dSSmp': n, 'lengths': (nn, nd), 'ambient': amb, 'layout': lay}, nontrivial=n > 1, key=(num, den, amb))
    mpmath.mp.prec = amb
    S = T.to_dSSmp()
    ambient(m, amb, 'to_dSSmp')
    N = 2 * n + 3
    h = [x[0][0] for x in o.impulse(*vals(S), N)]
    m.ok('order', T.order == n, 'wrong order', got=T.order)
    m.ok('exact', (S.n, S.p, S.q) == (n, 1, 1) and h == o.tf_impulse(num, den, N), 'the state-space is not exactly the transfer function', num=[float(x) for x in num], den=[float(x) for x in den])
    if rng.random() < 0.4:
        mpmath.mp.prec = amb
        m.ok('Sollya polynomials', [o.sollya_poly(x) for x in T.to_Sollya()] == [o.trimmed(num), o.trimmed(den)], 'the polynomials for Sollya are not those of the transfer function')
        ambient(m, amb, 'to_Sollya')
    m.ok('operands untouched', [o.frac(x) for x in T.num] == num and [o.frac(x) for x in T.den] == den, 'the transfer function was modified')


def normalise(m, rng, i):
    nn, nd = rng.randint(1, 5), rng.randint(1, 5)
    num = [entry(rng, 'mp', 20) for _ in range(nn)]
    den = [entry(rng, 'mp', 20) or F(3) for _ in range(nd)]
    amb = rng.choice([24, 53, 53, 200])
    b, a = o.mpmat([num]).T, o.mpmat([den]).T
    if rng.random() < 0.1:
        b, num, nn = a, den, nd       # (the same matrix given twice)
    m.case({'normalise': (nn, nd), 'ambient': amb, 'den0': float(den[0])}, key=(num, den, amb))
    mpmath.mp.prec = amb
    T = dTFmp(b, a)
    ambient(m, amb, 'dTFmp')
    gn, gd = [o.frac(x) for x in T.num], [o.frac(x) for x in T.den]
    good = gd[0] == 1 and len(gn) == nn and len(gd) == nd and all(abs(g - x / den[0]) <= abs(x / den[0]) * F(2) ** (1 - amb) for g, x in zip(gn + gd, num + den))
    m.ok('order', T.order == max(nn, nd) - 1, 'wrong order', got=T.order, lengths=(nn, nd))
    m.ok('normalised', good, 'the coefficients are not divided by the first one of the denominator', num=T.num, den=T.den)
    m.ok('operands untouched', [o.frac(x) for x in b] == num and [o.frac(x) for x in a] == den, 'the matrices given were modified')


def refusals(m, rng, i):
    M = [list(map(list, x)) for x in sysmats(rng, 'mp', rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3))]
    k = rng.randrange(8)
    if k % 2 == 0:
        M[k // 2] = M[k // 2] + [[F(1)] * len(M[k // 2][0])]
    else:
        M[k // 2] = [r + [F(1)] for r in M[k // 2]]
    sh = [o.shape(x) for x in M]
    m.case({'refused': sh})
    if not (sh[0][0] == sh[0][1] == sh[1][0] == sh[2][1] and sh[3] == (sh[2][0], sh[1][1])):
        m.raises('refusals', ValueError, lambda: dSSmp(*[o.mpmat(x) for x in M]), 'inconsistent sizes %s' % sh)
        m.raises('refusals', ValueError, lambda: dSSmp(*[o.npmat([[o.rnd(v, 53) for v in r] for r in x]) for x in small(M)]), 'inconsistent sizes %s (numpy)' % sh)
    p, q = rng.randint(1, 3), rng.randint(1, 3)
    S = dSSmp(*[o.mpmat(x) for x in sysmats(rng, 'mp', 2, p, q)])
    p2, q2 = rng.choice([(p + 1, q), (p, q + 1), (p + 1, q + 1)])
    R = dSSmp(*[o.mpmat(x) for x in sysmats(rng, 'mp', rng.randint(1, 3), p2, q2)])
    for a, b in ((S, R), (R, S)):
        m.raises('refusals', ValueError, lambda: a + b, 'sum of systems of different sizes')
        m.raises('refusals', ValueError, lambda: a - b, 'difference of systems of different sizes')
    good = [S.A, S.B, S.C, S.D]
    for bad in (3, None, 'x', [[1]], numpy.zeros((2, 2)), [[mpmath.mpf(1)] * 2] * 2):
        k = rng.randrange(4)
        m.raises('refusals', ValueError, lambda: dSSmp(*(good[:k] + [bad] + good[k + 1:])), '%s of type %s' % ('ABCD'[k], type(bad)))
    for bad in (3, None, 'x', [[1]]):
        m.raises('refusals', ValueError, lambda: S + bad, 'S + %r' % (bad,))
        m.raises('refusals', ValueError, lambda: S - bad, 'S - %r' % (bad,))
        m.raises('refusals', ValueError, lambda: S.simulate(bad), 'inputs of type %s' % type(bad))
        m.raises('refusals', ValueError, lambda: dTFmp(bad, o.mpmat([[F(1)]])), 'numerator of type %s' % type(bad))
        if bad is not None:
            m.raises('refusals', ValueError, lambda: S.simulate(o.mpmat(o.zeros(q, 3)), x0=bad), 'initial state of type %s' % type(bad))
    m.raises('refusals', ValueError, lambda: S.simulate(o.mpmat(o.zeros(q + 1, 3))), 'too many inputs')
    m.raises('refusals', ValueError, lambda: S.simulate(o.mpmat(o.zeros(q, 3)), x0=o.mpmat(o.zeros(3, 1))), 'initial state too long')
    m.raises('refusals', ValueError, lambda: S.simulate(o.mpmat(o.zeros(q, 3)), x0=o.mpmat(o.zeros(1, 2))), 'initial state on a row')
    m.raises('refusals', ValueError, lambda: dTFmp(o.mpmat([[F(1), F(2)]]), o.mpmat([[F(0), F(2)]])), 'null leading coefficient')
    m.raises('refusals', ValueError, lambda: dTFmp(o.mpmat([[F(1), F(2)], [F(1), F(1)]]), o.mpmat([[F(1), F(2)]])), 'numerator is not a vector')


WORKLOADS = [Workload('combine', combine, 300, 5000), Workload('simulate', simulate, 300, 5000), Workload('simulate_rounded', simulate_rounded, 150, 2500),
             Workload('to_dTFmp', to_tf, 200, 3000), Workload('to double', to_double, 200, 3000), Workload('to_dSSmp', tf_to_ss, 200, 3000),
             Workload('normalise', normalise, 200, 3000), Workload('refusals', refusals, 60, 800)]
EXPECT = {'exact': 400, 'order': 300, 'simulation': 300, 'transfer function': 150, 'rounded conversion': 200, 'exact conversion': 200, 'normalised': 150, 'ambient precision': 1000, 'refusals': 1000}
