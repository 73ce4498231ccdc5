# coding: utf-8
"""Exact reference models (rational arithmetic), independent of the code under test."""
from fractions import Fraction as F
import math


# ---------------------------------------------------------------- scalars
def frac(x):
    """exact value of a float / int / mpf / numpy scalar"""
    if isinstance(x, F):
        return x
    if hasattr(x, '_mpf_'):
        s, man, exp, bc = x._mpf_
        if not man and exp:
            raise ValueError('not finite: %r' % x)
        v = F(int(man)) * (F(2) ** exp)
        return -v if s else v
    if hasattr(x, '_mpc_'):
        raise ValueError('complex')
    if isinstance(x, int):
        return F(x)
    return F(float(x))


def is_mpf(x):
    return hasattr(x, '_mpf_')


def rnd(f, prec):
    """round-to-nearest-even of a Fraction on prec bits (unbounded exponent)"""
    if f == 0:
        return f
    s, a = (1, f) if f > 0 else (-1, -f)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if a < F(2) ** e:
        e -= 1
    u = F(2) ** (e - prec + 1)
    m = a / u
    lo = m.numerator // m.denominator
    r = m - lo
    if r > F(1, 2) or (r == F(1, 2) and lo % 2):
        lo += 1
    return s * lo * u


def todouble(f):
    """correctly rounded double (python's true division of ints is correctly rounded)"""
    return f.numerator / f.denominator


def dyadic(rng, bits=8, emin=-6, emax=4, zero=0.1):
    """random dyadic Fraction, exactly a double"""
    if rng.random() < zero:
        return F(0)
    m = rng.randrange(1, 1 << bits)
    return F(m) * F(2) ** rng.randint(emin - bits, emax - bits) * rng.choice((1, -1))


# ---------------------------------------------------------------- matrices (list of lists)
def zeros(a, b):
    return [[F(0)] * b for _ in range(a)]


def eye(n):
    return [[F(int(i == j)) for j in range(n)] for i in range(n)]


def shape(A):
    return (len(A), len(A[0]) if A else 0)


def add(A, B):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(A, B)]


def sub(A, B):
    return [[x - y for x, y in zip(r, s)] for r, s in zip(A, B)]


def neg(A):
    return [[-x for x in r] for r in A]


def mul(A, B, inner=None, cols=None):
    n = inner if inner is not None else len(B)
    p = cols if cols is not None else (len(B[0]) if B else 0)
    return [[sum((r[k] * B[k][j] for k in range(n) if r[k] and B[k][j]), F(0)) for j in range(p)] for r in A]


def absm(A):
    return [[abs(x) for x in r] for r in A]


def scale(A, k):
    return [[x * k for x in r] for r in A]


def T(A):
    return [list(r) for r in zip(*A)]


def inv(A):
    """exact inverse (Gauss-Jordan)"""
    n = len(A)
    M = [list(r) + e for r, e in zip(A, eye(n))]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            raise ZeroDivisionError('singular')
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def fmat(M, rows=None, cols=None):
    """exact Fractions of a numpy matrix / mpmath matrix / MPFMatrix"""
    if hasattr(M, 'rows'):
        return [[frac(M[i, j]) for j in range(M.cols)] for i in range(M.rows)]
    return [[frac(M[i, j]) for j in range(M.shape[1])] for i in range(M.shape[0])]


def npmat(A, cols=None):
    import numpy as np
    if not A:
        return np.matrix(np.zeros((0, cols or 0)))
    if not A[0]:
        return np.matrix(np.zeros((len(A), 0)))
    return layout(np.matrix([[todouble(x) for x in r] for r in A]))


def layout(M):
    """the same matrix, laid in memory in one of several ways, in single precision when it fits in (which depends on its values only)"""
    import numpy as np
    import zlib
    k = zlib.crc32(M.tobytes()) % 10 - 2
    if k < 0:
        with np.errstate(over='ignore'):
            S = M.astype(np.float32)
        return S if (S == M).all() else M
    if k < 4:
        return M
    if k < 6:
        return np.matrix(np.asfortranarray(M), copy=False)
    if k == 6:
        # a part of a larger array
        X = np.full((2 * M.shape[0] + 1, M.shape[1] + 2), 77.25)
        V = X[1::2, 1:-1]
    else:
        V = np.full((M.shape[0], M.shape[1]), 77.25)[::-1, ::-1]
    V[:] = M
    return np.matrix(V, copy=False)


def rand_ints(rng, shape):
    """a matrix of integers, and the same one with a numpy type of integers or booleans"""
    import numpy as np
    ty, lo, hi = rng.choice([(np.uint8, 0, 255), (np.int8, -128, 127), (bool, 0, 1), (bool, 0, 1), (np.int64, -2 ** 24, 2 ** 24), (np.int32, -2 ** 24, 2 ** 24), (np.int16, -2 ** 15, 2 ** 15 - 1), (np.uint64, 0, 2 ** 24)])
    X = np.matrix([[rng.choice([0, 1, lo, hi, rng.randint(lo, hi)]) for _ in range(shape[1])] for _ in range(shape[0])], dtype=ty).reshape(shape)
    return [[F(int(x)) for x in r] for r in X.tolist()], X


def mpmat(A):
    import mpmath
    M = mpmath.matrix(len(A), len(A[0]))
    for i, r in enumerate(A):
        for j, x in enumerate(r):
            M[i, j] = mpf_exact(x)
    return M


def mpf_exact(x):
    import mpmath
    from mpmath.libmp import from_man_exp
    d = x.denominator
    assert d & (d - 1) == 0, 'not dyadic'
    return mpmath.mp.make_mpf(from_man_exp(x.numerator, -(d.bit_length() - 1)))


def maxabs(A):
    return max([abs(x) for r in A for x in r] or [F(0)])


# ---------------------------------------------------------------- linear systems
def impulse(A, B, C, D, N):
    """exact impulse response: list of N p*q matrices"""
    p, q, n = len(D), len(D[0]), len(A)
    out = [D]
    X = B
    for _ in range(N - 1):
        out.append(mul(C, X, n, q) if n else zeros(p, q))
        if n:
            X = mul(A, X, n, q)
    return out


def simulate(A, B, C, D, u, x0=None):
    """exact simulation: u is q*N; returns p*N"""
    p, q, n = len(D), len(D[0]), len(A)
    N = len(u[0]) if u else 0
    x = x0 if x0 is not None else zeros(n, 1)
    y = zeros(p, N)
    for k in range(N):
        uk = [[r[k]] for r in u]
        yk = mul(D, uk, q, 1)
        if n:
            yk = add(yk, mul(C, x, n, 1))
            x = add(mul(A, x, n, 1), mul(B, uk, q, 1))
        for i in range(p):
            y[i][k] = yk[i][0]
    return y


def charpoly(A):
    """exact characteristic polynomial det(zI-A), highest power first (Faddeev-LeVerrier) and
    the matrices M_k with adj(zI-A) = sum_k M_k z^{n-1-k}"""
    n = len(A)
    c = [F(1)]
    M = eye(n)
    Ms = []
    for k in range(1, n + 1):
        Ms.append(M)
        AM = mul(A, M, n, n)
        ck = -sum(AM[i][i] for i in range(n)) / k
        c.append(ck)
        M = [[AM[i][j] + (ck if i == j else 0) for j in range(n)] for i in range(n)]
    return c, Ms


def ss2tf(A, B, C, D):
    """exact SISO transfer function (num, den) in powers of z^-1 (both n+1 long)"""
    n = len(A)
    den, Ms = charpoly(A)
    num = [D[0][0] * d for d in den]
    for k in range(n):
        num[k + 1] += mul(mul(C, Ms[k], n, n), B, n, 1)[0][0]
    return num, den


def tf_impulse(num, den, N):
    """exact impulse response of num(z^-1)/den(z^-1)"""
    h = []
    for k in range(N):
        v = num[k] if k < len(num) else F(0)
        for i in range(1, min(k, len(den) - 1) + 1):
            v -= den[i] * h[k - i]
        h.append(v / den[0])
    return h


def pmul(p, q):
    r = [F(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def padd(p, q):
    """sum of two polynomials in z^-1 (aligned on the z^0 coefficient)"""
    n = max(len(p), len(q))
    p = list(p) + [F(0)] * (n - len(p))
    q = list(q) + [F(0)] * (n - len(q))
    return [a + b for a, b in zip(p, q)]


def same_tf(n1, d1, n2, d2, tol=0):
    """n1/d1 == n2/d2 (cross-multiplied, relative to the magnitude of the products)"""
    a, b = pmul(n1, d2), pmul(n2, d1)
    diff = padd(a, [-x for x in b])
    if not tol:
        return all(x == 0 for x in diff)
    mag = padd(pmul([abs(x) for x in n1], [abs(x) for x in d2]), pmul([abs(x) for x in n2], [abs(x) for x in d1]))
    ref = max(mag)
    return all(abs(x) <= tol * ref for x in diff)


def close(a, b, tol, ref=None):
    a, b = frac(a), frac(b)
    r = frac(ref) if ref is not None else max(abs(a), abs(b))
    return abs(a - b) <= F(tol) * r if r else a == b


def close_mats(A, B, tol, ref=None):
    """shape and element-wise closeness; ref: scale (scalar or a matrix of scales)"""
    if shape(A) != shape(B):
        return False
    for i in range(len(A)):
        for j in range(len(A[0]) if A else 0):
            r = None
            if ref is not None:
                r = ref[i][j] if isinstance(ref, list) else ref
            if not close(A[i][j], B[i][j], tol, r):
                return False
    return True


def sbm(A):
    """short printable form"""
    return '[' + '; '.join(' '.join('%.6g' % float(x) for x in r) for r in A) + ']'


# ---------------------------------------------------------------- generators
def rand_mat(rng, a, b, bits=8, emin=-6, emax=4, zero=0.1):
    return [[dyadic(rng, bits, emin, emax, zero) for _ in range(b)] for _ in range(a)]


def structured(rng, a, b, near=36):
    """a remarkable matrix, or one close to it"""
    M = remarkable(rng, a, b)
    if a and b and rng.random() < 0.3:
        d = F(1, 2 ** rng.randint(6, near))
        for _ in range(rng.randint(1, 3)):
            M = [list(x) for x in M]
            M[rng.randrange(a)][rng.randrange(b)] += rng.choice([-1, 1]) * d
    return M


def remarkable(rng, a, b):
    """a remarkable matrix (constant, identity, permutation, triangular, symmetric, circulant, rank one, repeated rows or columns...)"""
    c = F(rng.choice([1, 1, -1, 2, 3])) * F(1, 2 ** rng.randint(0, 3))
    k = rng.randrange(11)
    R = rand_mat(rng, a, b, 4, -2, 1, 0.2)
    if k == 0:
        return [[c] * b for _ in range(a)]
    if k == 1:
        return [[c * (i == j) for j in range(b)] for i in range(a)]
    if k == 2:
        return [[c * (i + j == b - 1) for j in range(b)] for i in range(a)]
    if k == 3:
        return [[c * (i == j + 1) for j in range(b)] for i in range(a)]
    if k == 4:
        return [[F(0)] * b for _ in range(a)]
    if k == 5:
        return [[R[min(i, j)][max(i, j)] if max(i, j) < b and min(i, j) < a else R[i][j] for j in range(b)] for i in range(a)]
    if k == 6:
        return [[R[0][(j - i) % b] for j in range(b)] for i in range(a)]
    if k == 7:
        return [[R[i][0] * R[0][j] for j in range(b)] for i in range(a)]
    if k == 8:
        return [list(R[0]) for _ in range(a)]
    if k == 9:
        return [[R[i][0]] * b for i in range(a)]
    return [[c * (-1) ** (i + j) for j in range(b)] for i in range(a)]


def rand_stable(rng, n, bits=10, rho=0.9):
    """random dyadic A with infinity norm < rho (so it is stable), generically dense"""
    A = [[dyadic(rng, bits, -4, 0, 0.15) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        s = sum(abs(x) for x in A[i])
        while s >= F(rho):
            A[i] = [x / 2 for x in A[i]]
            s = sum(abs(x) for x in A[i])
    return A


def sollya_poly(x):
    """coefficients of a polynomial of (the stand-in of) Sollya, low degrees first, without its null leading coefficients"""
    c = [F(getattr(v, 'value', v)) for v in (x.c if hasattr(x, 'c') else [x])]
    while c and c[-1] == 0:
        c.pop()
    return c


def trimmed(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return c
