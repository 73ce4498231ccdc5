# coding: utf-8
"""C02: exact inverse of unit lower-triangular matrices"""
from fractions import Fraction as F
import mpmath
from rv import oracle as o
from rv.core import Workload
from fixif.func_aux import mpf_matrix_lt_inverse, MPFMatrix
from rv.props.C01 import entry, build

PROPERTY = 'C02'
RULE = ('random unit lower-triangular matrices (n=1..8) with entries of widely different exponents, as double, integer or multiple-precision '
        'matrices, working precisions 2..400; non-trivial when the exact inverse does not fit the working precision')
ASSUMPTIONS = ['finite real entries', 'the product L.X is checked in exact rational arithmetic']
PRECS = [2, 10, 24, 53, 53, 64, 200, 400]


def tri(rng, kind, n, scale, dense):
    return [[F(1) if i == j else (entry(rng, kind, scale) if i > j and rng.random() < dense else F(0)) for j in range(n)] for i in range(n)]


def inverse(m, rng, i):
    n = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8])
    kind = rng.choice(['mp', 'double', 'int', 'double'])
    L = tri(rng, kind, n, rng.choice([3, 30, 300]), rng.choice([0.2, 0.6, 1.0]))
    prec = rng.choice(PRECS)
    ref = o.inv(L)
    m.case({'n': n, 'kind': kind, 'prec': prec, 'L': [[str(x) if len(str(x)) < 12 else '~%g' % float(x) for x in r] for r in L[:3]] if o.maxabs(L) < 1e300 else 'large'},
           nontrivial=any(o.rnd(x, prec) != x for r in ref for x in r) or n > 2, key=(L, prec))
    X = build(rng, kind, L)
    before = o.fmat(X)
    mpmath.mp.prec = prec
    Y = mpf_matrix_lt_inverse(X)
    Z = MPFMatrix(X).inv_lowtr()
    m.ok('working precision kept', mpmath.mp.prec == prec, 'the working precision has changed')
    mpmath.mp.prec = 53
    Yf, Zf = o.fmat(Y), o.fmat(Z.matrix)
    m.ok('L.X = I', o.shape(Yf) == (n, n) and o.mul(L, Yf) == o.eye(n), 'L.X is not the identity (function)', L=L, X=Yf)
    m.ok('X.L = I', o.shape(Yf) == (n, n) and o.mul(Yf, L) == o.eye(n), 'X.L is not the identity (function)')
    m.ok('L.X = I', o.shape(Zf) == (n, n) and o.mul(L, Zf) == o.eye(n), 'L.X is not the identity (method)', L=L, X=Zf)
    m.ok('operand untouched', o.fmat(X) == before, 'the operand was modified')


def refusals(m, rng, i):
    n = rng.randint(1, 7)
    kind = rng.choice(['mp', 'double'])
    L = tri(rng, kind, n, 5, 0.7)
    how = rng.choice(['diag', 'upper', 'shape', 'type'])
    small = rng.random() < 0.5
    if how == 'upper' and n == 1:
        how = 'diag'
    if how == 'diag':
        k = rng.randrange(n)
        L[k][k] = rng.choice([F(0), F(-1), F(2), F(1) + F(1, 2 ** 50)]) if not small else F(1) + F(1, 2 ** 52)
    elif how == 'upper':
        r = rng.randrange(n - 1)
        c = rng.randrange(r + 1, n)
        L[r][c] = F(1, 2 ** 300) if small else F(rng.choice([1, -2, 3]))
    elif how == 'shape':
        if rng.random() < 0.5:
            L = [r + [F(0)] for r in L]
        else:
            L = L + [[F(0)] * n]
    m.case({'refused': how, 'n': n, 'kind': kind, 'small': small, 'L': [[float(x) for x in r] for r in L[:3]]})
    if how == 'type':
        bad = rng.choice([None, 'L', 3, [[1]]])
        m.raises('refusals', ValueError, lambda: mpf_matrix_lt_inverse(bad), 'unsupported type')
        return
    X = build(rng, kind, L)
    m.raises('refusals', ValueError, lambda: mpf_matrix_lt_inverse(X), 'not unit lower triangular: %s' % how)
    m.raises('refusals', ValueError, lambda: MPFMatrix(X).inv_lowtr(), 'not unit lower triangular: %s (method)' % how)


WORKLOADS = [Workload('inverse', inverse, 3600, 12000), Workload('refusals', refusals, 1500, 3000)]
EXPECT = {'L.X = I': 1000, 'X.L = I': 500, 'refusals': 300}
