# coding: utf-8
"""Reference model of the implicit form (exact rational evaluation, step by step) and generators of realizations"""
from fractions import Fraction as F
from rv import oracle as o

NAMES = 'J K L M N P Q R S'.split()


def shapes(l, n, p, q):
    return [(l, l), (n, l), (p, l), (l, n), (l, q), (n, n), (n, q), (p, n), (p, q)]


class Ref(object):
    """J t(k+1) = M x(k) + N u(k);  x(k+1) = K t(k+1) + P x(k) + Q u(k);  y(k) = L t(k+1) + R x(k) + S u(k)
    evaluated by forward substitution (J is lower triangular with ones on its diagonal)"""
    def __init__(self, mats, size):
        self.size = size
        self.d = dict(zip(NAMES, mats))
        l, n, p, q = size
        self.rows_t = [self._row(((self.d['J'], i, -1, 't'), (self.d['M'], i, 1, 'x'), (self.d['N'], i, 1, 'u'))) for i in range(l)]
        for i, r in enumerate(self.rows_t):
            assert all(not (v == 't' and j >= i) for v, j, c in r if not (v == 't' and j == i)), 'J is not lower triangular'
        self.rows_x = [self._row(((self.d['K'], i, 1, 't'), (self.d['P'], i, 1, 'x'), (self.d['Q'], i, 1, 'u'))) for i in range(n)]
        self.rows_y = [self._row(((self.d['L'], i, 1, 't'), (self.d['R'], i, 1, 'x'), (self.d['S'], i, 1, 'u'))) for i in range(p)]

    @staticmethod
    def _row(parts):
        return [(v, j, s * c) for M, i, s, v in parts if M for j, c in enumerate(M[i]) if c]

    @classmethod
    def of(cls, R):
        """from the matrices of a SIF object"""
        return cls([o.fmat(x) for x in (R.J, R.K, R.L, R.M, R.N, R.P, R.Q, R.R, R.S)], (R.l, R.n, R.p, R.q))

    def step(self, x, u, err=None, absolute=False):
        """one step -> (t, next x, y); err: (et, ex, ey) added to each computed variable"""
        l, n, p, q = self.size
        f = abs if absolute else (lambda c: c)
        e = err or ([0] * l, [0] * n, [0] * p)
        t = []
        val = {'t': t, 'x': x, 'u': u}
        for i in range(l):
            acc = F(0) + e[0][i]
            for v, j, c in self.rows_t[i]:
                if v == 't' and j == i:
                    assert c == -1
                    continue
                acc += f(c) * val[v][j]
            t.append(acc)
        xn = [sum((f(c) * val[v][j] for v, j, c in r), F(0)) + e[1][i] for i, r in enumerate(self.rows_x)]
        y = [sum((f(c) * val[v][j] for v, j, c in r), F(0)) + e[2][i] for i, r in enumerate(self.rows_y)]
        return t, xn, y

    def run(self, u, x0=None, err=None, prec=None, absolute=False):
        """u: list of N input vectors; err: list of N triples -> list of (t, x(k), x(k+1), y)"""
        x = list(x0) if x0 is not None else [F(0)] * self.size[1]
        out = []
        for k, uk in enumerate(u):
            t, xn, y = self.step(x, uk, err[k] if err else None, absolute)
            out.append((t, x, xn, y))
            x = [o.rnd(v, prec) for v in xn] if prec else xn
        return out

    def impulse(self, N, prec=None):
        """list of N p*q matrices"""
        p, q = self.size[2:]
        res = [o.zeros(p, q) for _ in range(N)]
        for j in range(q):
            u = [[F(int(i == j and k == 0)) for i in range(q)] for k in range(N)]
            for k, (_, _, _, y) in enumerate(self.run(u, prec=prec)):
                for i in range(p):
                    res[k][i][j] = y[i]
        return res


def rand_mats(rng, l, n, p, q, bits=4, rho=None, zero=0.3, upper=None):
    """random dyadic J to S, J unit lower triangular; rho: bound of the gain of the state recursion (a stable realization)"""
    sh = shapes(l, n, p, q)
    D = dict(zip(NAMES, [o.rand_mat(rng, a, b, bits, -2, 1, zero) for a, b in sh]))
    if rng.random() < 0.15:
        for k, (a, b) in zip(NAMES, sh):
            if a and b and rng.random() < 0.6:
                D[k] = o.structured(rng, a, b)
    for i in range(l):
        for j in range(l):
            D['J'][i][j] = F(1) if i == j else (D['J'][i][j] if j < i else F(0))
    if upper:
        for i in range(n):
            for j in range(i):
                D['P'][i][j] = F(0)
    if rho is not None:
        make_stable(D, (l, n, p, q), rho)
    return [D[k] for k in NAMES]


def rand_units(rng, p=0.15, lo=-50, hi=35):
    """units of the variables t, x, y, u: coefficients of very different magnitudes, same behaviour -> {name of the matrix: factor}"""
    et, ex, ey, eu = [rng.choice([0, 0, rng.randint(lo, hi)]) for _ in range(4)] if rng.random() < p else (0, 0, 0, 0)
    return {k: F(2) ** e for k, e in (('J', 0), ('K', ex - et), ('L', ey - et), ('M', et - ex), ('N', et - eu), ('P', 0), ('Q', ex - eu), ('R', ey - ex), ('S', ey - eu))}


def rescale(mats, units):
    return [[[v * units[k] for v in r] for r in M] for k, M in zip(NAMES, mats)]


def graded(rng, mats, size):
    """smaller and smaller (or larger and larger) units for the intermediate variables: tiny (or large) terms under the diagonal of J, with the same behaviour"""
    l = size[0]
    D = dict(zip(NAMES, mats))
    g = rng.randint(10, 60 // max(l, 1)) if l < 7 else 8
    if rng.random() < 0.5:
        g = -g           # (larger and larger terms)
    e = [F(2) ** (-g * i) for i in range(l)]
    D['J'] = [[v * e[i] / e[j] for j, v in enumerate(r)] for i, r in enumerate(D['J'])]
    for k in 'MN':
        D[k] = [[v * e[i] for v in r] for i, r in enumerate(D[k])]
    for k in 'KL':
        D[k] = [[v / e[j] for j, v in enumerate(r)] for r in D[k]]
    return [D[k] for k in NAMES]


def make_stable(D, size, rho):
    """scale K and P by powers of two until the infinity norm of AZ is below rho"""
    l, n, p, q = size
    if not n:
        return
    Ji = o.inv(D['J']) if l else []
    for _ in range(40):
        AZ = D['P']
        if l:
            AZ = o.add(o.mul(o.mul(D['K'], Ji, l, l), D['M'], l, n), AZ)
        w = [i for i in range(n) if sum(abs(v) for v in AZ[i]) >= rho]
        if not w:
            return
        for i in w:
            D['K'][i] = [v / 2 for v in D['K'][i]]
            D['P'][i] = [v / 2 for v in D['P'][i]]


def npmats(mats, size):
    return tuple(o.npmat(x, s[1]) for x, s in zip(mats, shapes(*size)))


def dss(mats, size):
    """exact equivalent state-space (AZ, BZ, CZ, DZ) with inv(J), M1, M2, N1, N2"""
    l, n, p, q = size
    D = dict(zip(NAMES, mats))
    if not l:
        return D['P'], D['Q'], D['R'], D['S']
    Ji = o.inv(D['J'])
    JM, JN = o.mul(Ji, D['M'], l, n), o.mul(Ji, D['N'], l, q)
    return (o.add(o.mul(D['K'], JM, l, n), D['P']), o.add(o.mul(D['K'], JN, l, q), D['Q']),
            o.add(o.mul(D['L'], JM, l, n), D['R']), o.add(o.mul(D['L'], JN, l, q), D['S']))


def zmat(mats, size):
    """the Z matrix"""
    l, n, p, q = size
    J, K, L, M, N, P, Q, R, S = mats
    return [[-v for v in J[i]] + list(M[i]) + list(N[i]) for i in range(l)] + [list(K[i]) + list(P[i]) + list(Q[i]) for i in range(n)] + [list(L[i]) + list(R[i]) + list(S[i]) for i in range(p)]
