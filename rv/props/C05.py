# coding: utf-8
"""C05: polynomial products in multiple precision"""
from fractions import Fraction as F
import mpmath
from rv import oracle as o
from rv.core import Workload
from rv.props.C01 import entry
from fixif.func_aux import mpf_poly_mult, mp_poly_product

PROPERTY = 'C05'
RULE = ('random pairs of polynomials of degrees 0..7 (real or complex, equal and unequal degrees) and lists of 1..8 real or complex factors with '
        'or without an omitted index, working precisions 53..300; non-trivial when the degree of the result is at least 2')
ASSUMPTIONS = ['finite coefficients', 'error bound: the working precision times the sum of the moduli of the products']
PRECS = [53, 53, 100, 300]


class C(object):
    """exact complex number"""
    def __init__(self, re, im=F(0)):
        self.re, self.im = F(re), F(im)

    def __add__(self, x):
        return C(self.re + x.re, self.im + x.im)

    def __mul__(self, x):
        return C(self.re * x.re - self.im * x.im, self.re * x.im + self.im * x.re)

    def mag(self):
        return abs(self.re) + abs(self.im)

    def mp(self):
        if self.im == 0:
            return o.mpf_exact(self.re)
        return mpmath.mp.make_mpc((o.mpf_exact(self.re)._mpf_, o.mpf_exact(self.im)._mpf_))


def val(x):
    if hasattr(x, '_mpc_'):
        return C(o.frac(mpmath.mp.make_mpf(x._mpc_[0])), o.frac(mpmath.mp.make_mpf(x._mpc_[1])))
    return C(o.frac(x))


def num(rng, cplx, mp=True):
    def e():
        return F(rng.choice((1, -1)) * rng.getrandbits(rng.choice([3, 20, 53]))) * F(2) ** rng.randint(-60, 5)
    return C(e(), e() if cplx and rng.random() < 0.8 else F(0))


def pm(p, q):
    r = [C(0)] * (len(p) + len(q) - 1)
    g = [F(0)] * len(r)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] = r[i + j] + a * b
            g[i + j] += a.mag() * b.mag()
    return r, g


def column(p):
    M = mpmath.matrix(len(p), 1)
    for i, x in enumerate(p):
        M[i, 0] = x.mp()
    return M


def check(m, mon, got, ref, mag, prec, what, **wit):
    good = got.rows == len(ref) and got.cols == 1
    if good:
        for k in range(len(ref)):
            v = val(got[k, 0])
            e = max(abs(v.re - ref[k].re), abs(v.im - ref[k].im))
            if e > mag[k] * F(8 * len(ref)) / F(2) ** prec:
                good = False
    m.ok(mon, good, what, got=got, expected=[(float(x.re), float(x.im)) for x in ref], **wit)


def products(m, rng, i):
    cplx = rng.random() < 0.5
    p = [num(rng, cplx) for _ in range(rng.randint(1, 8))]
    q = [num(rng, cplx and rng.random() < 0.7) for _ in range(rng.randint(1, 8))]
    prec = rng.choice(PRECS)
    m.case({'degrees': (len(p) - 1, len(q) - 1), 'complex': cplx, 'prec': prec, 'p': [float(x.re) for x in p], 'q': [float(x.re) for x in q]}, nontrivial=len(p) + len(q) > 3)
    P, Q = column(p), column(q)
    mpmath.mp.prec = prec
    R = mpf_poly_mult(P, Q)
    S = mpf_poly_mult(Q, P)
    m.ok('working precision kept', mpmath.mp.prec == prec, 'the working precision has changed')
    mpmath.mp.prec = 53
    ref, mag = pm(p, q)
    check(m, 'product', R, ref, mag, prec, 'wrong product')
    check(m, 'product', S, ref, mag, prec, 'wrong product (swapped)')
    same = all(val(P[k]).re == p[k].re and val(P[k]).im == p[k].im for k in range(len(p)))
    m.ok('operands untouched', same and P.rows == len(p) and Q.rows == len(q), 'an operand was modified')


def factors(m, rng, i):
    n = rng.randint(1, 8)
    cplx = rng.random() < 0.5
    c = [num(rng, cplx) for _ in range(n)]
    if rng.random() < 0.3 and n > 1:
        c[-1] = c[0]            # double root
    j = rng.choice([-1, None, rng.randrange(n), 0, n - 1])
    prec = rng.choice(PRECS)
    kind = rng.choice(['list', 'matrix', 'tuple'])
    m.case({'factors': n, 'omitted': j, 'complex': cplx, 'prec': prec, 'kind': kind, 'c': [float(x.re) for x in c]}, nontrivial=n > 2)
    L = [x.mp() for x in c]
    L = L if kind == 'list' else tuple(L) if kind == 'tuple' else mpmath.matrix(L)
    mpmath.mp.prec = prec
    R = mp_poly_product(L) if j is None else mp_poly_product(L, j)
    m.ok('working precision kept', mpmath.mp.prec == prec, 'the working precision has changed')
    mpmath.mp.prec = 53
    ref, mag = [C(1)], [F(1)]
    for k in range(n):
        if k != j:
            ref, _ = pm(ref, [C(1), c[k]])
            mag = o.padd(mag + [F(0)], [F(0)] + [x * c[k].mag() for x in mag])
    check(m, 'product of factors', R, ref, [8 * g for g in mag], prec, 'wrong product of the factors (z + p_i)', j=j)


def refusals(m, rng, i):
    M = mpmath.matrix([1, 2])
    bad = [3, None, [1, 2], 'x'][i % 4]
    m.case({'refused': str(bad)})
    m.raises('refusals', ValueError, lambda: mpf_poly_mult(M, bad), 'unsupported operand')
    m.raises('refusals', ValueError, lambda: mpf_poly_mult(bad, M), 'unsupported operand')
    m.raises('refusals', ValueError, lambda: mp_poly_product([]), 'no factor')


WORKLOADS = [Workload('products', products, 1800, 4000), Workload('factors', factors, 1200, 3000), Workload('refusals', refusals, 4, 4)]
EXPECT = {'product': 500, 'product of factors': 150, 'refusals': 8}
