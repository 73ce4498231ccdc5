# coding: utf-8
"""C19: sensitivities of the transfer function and of the poles"""
from copy import deepcopy
from fractions import Fraction as F
import numpy
import mpmath
from rv import oracle as o
from rv.core import Workload
from rv.sif import rand_mats, npmats, zmat, shapes, NAMES, dss, rand_units, rescale
from rv.props.C12 import Shadow
from fixif.SIF import SIF, Realization
from fixif import Structures as St
from fixif.LTI import Filter

PROPERTY = 'C19'
RULE = ('random stable realizations (0..3 intermediate variables, 0..4 states, 1..2 inputs and outputs, real and complex distinct poles) and structured ones, with the exactness flags '
        'computed or given; each coefficient is perturbed: the poles of the perturbed realizations are computed exactly (rational characteristic polynomial, Newton in 300 bits), the '
        'impulse responses with a complex step; non-trivial when the realization has a pole that depends on a coefficient')
ASSUMPTIONS = ['poles separated by more than 1e-2, and of modulus larger than 1e-2 for the sensitivity of the moduli', 'relative tolerance 1e-6 (Lyapunov and eigenvalue solvers in double)',
               'units of the variables within 2^12 of each other (the Lyapunov solver works in double, without balancing)']


def split(Z, size):
    """J..S from Z (any kind of numbers)"""
    l, n, p, q = size
    J = [[-v for v in Z[i][:l]] for i in range(l)]
    M, N = [Z[i][l:l + n] for i in range(l)], [Z[i][l + n:] for i in range(l)]
    K, P, Q = [Z[l + i][:l] for i in range(n)], [Z[l + i][l:l + n] for i in range(n)], [Z[l + i][l + n:] for i in range(n)]
    L, R, S = [Z[l + n + i][:l] for i in range(p)], [Z[l + n + i][l:l + n] for i in range(p)], [Z[l + n + i][l + n:] for i in range(p)]
    return [J, K, L, M, N, P, Q, R, S]


def charpoly(A):
    """Faddeev-LeVerrier"""
    n = len(A)
    c = [F(1)]
    M = o.zeros(n, n)
    for k in range(1, n + 1):
        M = o.add(o.mul(A, M), o.scale(o.eye(n), c[-1]))
        AM = o.mul(A, M)
        c.append(-sum(AM[i][i] for i in range(n)) / k)
    return c


def polish(c, x):
    """root of the polynomial close to x, 300 bits"""
    c = [mpmath.mpf(v.numerator) / v.denominator for v in c]
    x = mpmath.mpc(x)
    for _ in range(12):
        v, d = c[0], mpmath.mpf(0)
        for a in c[1:]:
            d = d * x + v
            v = v * x + a
        x = x - v / d
    return x


def pole_derivatives(mats, size):
    """poles, and the derivatives of each pole wrt each coefficient of Z"""
    Z = zmat(mats, size)
    A0 = dss(mats, size)[0]
    lam = numpy.linalg.eigvals(numpy.array(o.npmat(A0), dtype=float))
    h = F(1, 2 ** 60)
    D = numpy.zeros((len(Z), len(Z[0]), len(lam)), dtype=complex)
    with mpmath.workprec(300):
        base = [polish(charpoly(A0), x) for x in lam]
        for i in range(len(Z)):
            for j in range(len(Z[0])):
                val = []
                for s in (1, -1):
                    Z2 = [list(r) for r in Z]
                    Z2[i][j] += s * h
                    val.append(charpoly(dss(split(Z2, size), size)[0]))
                if val[0] == val[1]:
                    continue
                for k, x in enumerate(base):
                    D[i, j, k] = complex((polish(val[0], x) - polish(val[1], x)) * (2 ** 59))
    return [complex(x) for x in base], D


def match(A, B, tol):
    """the matrices A[:,:,k] are those of B in some order"""
    if A.shape != B.shape:
        return False
    left = list(range(B.shape[2]))
    for k in range(A.shape[2]):
        d = [numpy.max(numpy.abs(A[:, :, k] - B[:, :, j])) if A[:, :, k].size else 0 for j in left]
        b = int(numpy.argmin(d))
        if not d[b] <= tol * (1 + numpy.max(numpy.abs(B[:, :, left[b]]))):
            return False
        left.pop(b)
    return True


def impulse_c(Z, size, N):
    """complex double impulse response of Z"""
    l, n, p, q = size
    J, K, L, M, Nn, P, Q, R, S = -Z[:l, :l], Z[l:l + n, :l], Z[l + n:, :l], Z[:l, l:l + n], Z[:l, l + n:], Z[l:l + n, l:l + n], Z[l:l + n, l + n:], Z[l + n:, l:l + n], Z[l + n:, l + n:]
    X = numpy.linalg.solve(J, numpy.hstack((M, Nn))) if l else numpy.zeros((0, n + q))
    A, B, C, D = K @ X[:, :n] + P, K @ X[:, n:] + Q, L @ X[:, :n] + R, L @ X[:, n:] + S
    out = [D]
    V = B
    for _ in range(N):
        out.append(C @ V)
        V = A @ V
    return numpy.array(out)


def tf_norms(mats, size, N):
    Z = numpy.array(o.npmat(zmat(mats, size)), dtype=complex)
    E = numpy.zeros(Z.shape)
    h = 1e-60
    for i in range(Z.shape[0]):
        for j in range(Z.shape[1]):
            Y = Z.copy()
            Y[i, j] += 1j * h
            d = impulse_c(Y, size, N).imag / h
            E[i, j] = numpy.sqrt(numpy.sum(d * d))
    return E


def flags(rng, R, size):
    """exactness flags: kept, or random (0/1 or weights)"""
    k = rng.randrange(4)
    if k >= 2:
        sh = (size[0] + size[1] + size[2], size[0] + size[1] + size[3])
        R.dZ = numpy.matrix([[rng.choice([0, 1]) if k == 2 else rng.choice([0, 0.5, 1, 2]) for _ in range(sh[1])] for _ in range(sh[0])])
    return numpy.array(R.dZ, dtype=float)


def units_of(units, size):
    """magnitudes of the derivatives with respect to the entries of Z"""
    l, n, p, q = size
    one = lambda k, a, b: numpy.full((a, b), float(units['S'] / units[k]))
    return numpy.block([[one('J', l, l), one('M', l, n), one('N', l, q)], [one('K', n, l), one('P', n, n), one('Q', n, q)], [one('L', p, l), one('R', p, n), one('S', p, q)]])


def check_tf(m, rng, R, mats, size, N, units=None):
    W = flags(rng, R, size)
    M, MX = R.dTFsensitivity()
    E = tf_norms(mats, size, N) * W
    MX = numpy.asarray(MX, dtype=float)
    G = units_of(units or dict.fromkeys(NAMES, F(1)), size)
    m.ok('transfer function sensitivity', MX.shape == E.shape and numpy.allclose(MX / G, E / G, rtol=1e-6, atol=1e-6 * (0.1 + (E / G).max())), 'the sensitivity matrix is not made of the L2 norms of the derivatives of the transfer function',
         got=MX, expected=E)
    m.ok('transfer function measure', abs(M - (E * E).sum()) <= 1e-5 * (1e-3 * (G * G).max() + (E * E).sum()), 'the measure is not the sum of the squares over the coefficients that are not exact', got=M, expected=(E * E).sum())
    m.ok('exact coefficients', MX.shape == W.shape and not numpy.any(MX[W == 0]), 'an exact coefficient contributes')
    m.seen('coefficients', MX.size)


def check_poles(m, rng, R, mats, size, units=None):
    lam = numpy.linalg.eigvals(numpy.array(o.npmat(dss(mats, size)[0]), dtype=float))
    n = len(lam)
    if any(abs(lam[a] - lam[b]) < 1e-2 for a in range(n) for b in range(a)):
        m.note('poles too close')
        return
    lam, D = pole_derivatives(mats, size)
    if any(abs(lam[a] - lam[b]) < 1e-2 for a in range(n) for b in range(a)) or numpy.abs(D).max(initial=0) > 1e4:
        m.note('poles too close')
        return
    G = units_of(dict(units or dict.fromkeys(NAMES, F(1)), S=F(1)), size)
    G3 = G[:, :, None]
    W = flags(rng, R, size)
    cplx = any(abs(x.imag) > 1e-9 for x in lam)
    for moduli in (True, False):
        if moduli and min([abs(x) for x in lam] + [1]) < 1e-2:
            m.note('null pole')
            continue
        E = D
        if moduli:
            E = numpy.array([[[(v * x.conjugate()).real / abs(x) for v, x in zip(c, lam)] for c in r] for r in D])
        M, dl, dk = R.poleSensitivity(moduli) if rng.random() < 0.7 or not moduli else R.poleSensitivity()
        m.ok('pole sensitivity', numpy.shape(dk) == E.shape and match(numpy.asarray(dk) / G3, E / G3, 1e-6), 'the sensitivity of a pole%s is not its derivative' % ("'s modulus" if moduli else ''), poles=lam, got=dk, expected=E)
        T = numpy.sqrt((numpy.abs(E) ** 2).sum(axis=2))
        dl = numpy.asarray(dl)
        m.ok('pole sensitivity matrix', dl.shape == T.shape and numpy.allclose(dl / G, T / G, rtol=1e-6, atol=1e-7 * (1 + (T / G).max())), 'the pole sensitivity matrix is not made of the norms of the derivatives of the poles', got=dl, expected=T)
        e = ((T * W) ** 2).sum()
        m.ok('pole measure', abs(M - e) <= 1e-5 * (1e-3 * (G * G).max() + e), 'the measure is not the sum of the squares over the coefficients that are not exact', got=M, expected=e)
        m.seen('%s poles, %s' % ('complex' if cplx else 'real', 'moduli' if moduli else 'poles'))


def draw(m, rng):
    size = (rng.choice([0, 1, 2, 3]), rng.choice([1, 2, 2, 3, 4]) if rng.random() < 0.95 else 0, rng.randint(1, 2), rng.randint(1, 2))
    mats = rand_mats(rng, *size, bits=rng.choice([2, 4, 8]), rho=rng.choice([F(1, 2), F(7, 8)]), zero=rng.choice([0.1, 0.3]))
    if size[0] + size[1] > 2 and rng.random() < 0.6:
        # two successive variables (or sources) with the same effect, up to signs, on a part of the others
        D = dict(zip(NAMES, deepcopy(mats)))
        l, n, p, q = size
        rows = rng.random() < 0.4
        k = rng.randrange(3 if rows else 2)
        X, a = [('J', l), ('P', n), ('R', p)][k] if rows else [('J', l), ('P', n)][k]
        if a > 1:
            i = rng.randrange(1, a)
            names = {'J': 'MN', 'P': 'KPQ', 'R': 'LRS'}[X] if rows else {'J': 'KL', 'P': 'MPR'}[X]
            signs = [1] + [rng.choice([1, -1, -1, 0]) for _ in names[1:]]
            rng.shuffle(signs)
            for Y, s in zip(names, signs):
                for b in range(len(D[Y][0])) if rows and D[Y] else ():
                    D[Y][i][b] = s * D[Y][i - 1][b]
                for r in D[Y] if not rows else ():
                    r[i] = s * r[i - 1]
            if rows or X == 'J':
                for r in D['J']:
                    for b in range(l):
                        if r[b] != 1:
                            r[b] = F(0)
        same = [D[k] for k in NAMES]
        A = dss(same, size)[0]
        if not A or abs(numpy.linalg.eigvals(o.npmat(A).astype(float))).max() < 0.9:
            mats = same
            m.seen("two variables with the same effect")
    if size[1] > 1 and rng.random() < 0.2:
        # symmetric, antisymmetric, modal, triangular or companion states (or close to it)
        D = dict(zip(NAMES, deepcopy(mats)))
        n, P = size[1], D['P']
        kind = rng.choice(['symmetric', 'antisymmetric', 'modal', 'triangular', 'companion'])
        d = [F(rng.randint(-55, 55), 64) for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if kind == 'symmetric':
                    P[i][j] = P[max(i, j)][min(i, j)]
                elif kind == 'antisymmetric':
                    P[i][j] = P[i][j] if j < i else -P[j][i] if j > i else d[0]
                elif kind == 'modal':
                    P[i][j] = d[i] if i == j else F(0)
                elif kind == 'triangular':
                    P[i][j] = d[i] if i == j else P[i][j] if j > i else F(0)
                else:
                    P[i][j] = d[j] / 4 if i == 0 else F(int(j == i - 1))
        if kind == 'antisymmetric':
            for i in range(n):
                for j in range(i + 1, n):
                    P[i][j] = -P[j][i]
        if rng.random() < 0.5:
            P[rng.randrange(n)][rng.randrange(n)] += F(rng.choice([-1, 1]), 2 ** rng.randint(5, 20))
        if size[0]:
            X = rng.choice('KM')
            D[X] = o.zeros(*[(a, b) for k, (a, b) in zip(NAMES, shapes(*size)) if k == X][0])
        same = [D[k] for k in NAMES]
        if abs(numpy.linalg.eigvals(o.npmat(dss(same, size)[0]).astype(float))).max() < 0.9:
            mats = same
            m.seen('%s states' % kind)
    units = rand_units(rng, 0.15, -6, 6)
    mats = rescale(mats, units)
    R = SIF(npmats(mats, size)) if rng.random() < 0.5 else Realization(None, npmats(mats, size))
    return R, mats, size, units


def randoms(m, rng, i):
    R, mats, size, units = draw(m, rng)
    m.case({'size': size, 'Z': o.sbm(zmat(mats, size))})
    check_tf(m, rng, R, mats, size, 250, units)
    check_poles(m, rng, R, mats, size, units)
    if rng.random() < 0.4 and size[1]:
        # after the coefficients have changed
        mats = rescale(rand_mats(rng, *size, rho=F(7, 8)), units)
        if rng.random() < 0.5:
            R.Z = o.npmat(zmat(mats, size))
        else:
            for k in rng.sample(range(9), 9):
                a, b = shapes(*size)[k]
                if a and b:
                    setattr(R, NAMES[k], o.npmat(mats[k]))
        check_tf(m, rng, R, mats, size, 250, units)
        check_poles(m, rng, R, mats, size, units)
        m.seen('after a change')
    m.ok('realization untouched', o.fmat(R.Z) == zmat(mats, size), 'the coefficients have been modified')


def structured(m, rng, i):
    n = rng.randint(1, 4)
    den = numpy.array([1.0])
    poles = []
    while len(poles) < n:
        if n - len(poles) >= 2 and rng.random() < 0.6:
            r, t = rng.uniform(0.2, 0.9), rng.uniform(0.3, 2.8)
            poles += [r * complex(numpy.cos(t), numpy.sin(t)), r * complex(numpy.cos(t), -numpy.sin(t))]
        else:
            poles.append(rng.uniform(-0.9, 0.9))
    den = numpy.real(numpy.poly(poles))
    f = Filter(num=[rng.uniform(-2, 2) for _ in range(n + 1)], den=den.tolist())
    Rs = list(f.iterAllRealizations())
    R = rng.choice(Rs)
    size = R.size
    mats = [o.fmat(x) for x in R.JtoS]
    m.case({'structure': R.structureName, 'den': den.tolist()})
    check_tf(m, rng, R, mats, size, 700)
    if size[1] <= 6:
        check_poles(m, rng, R, mats, size)
    m.seen('structure')


WORKLOADS = [Workload('randoms', randoms, 100, 1800), Workload('structures', structured, 40, 500)]
EXPECT = {'transfer function sensitivity': 120, 'pole sensitivity': 120, 'pole measure': 100, 'complex poles, moduli': 20, 'complex poles, poles': 20, 'real poles, poles': 20, 'after a change': 15, 'structure': 30, 'exact coefficients': 100}
