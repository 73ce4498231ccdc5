# coding: utf-8
"""C04: MPFMatrix objects are faithful, independent values"""
from fractions import Fraction as F
import numpy
import mpmath
from rv import oracle as o
from rv.core import Workload
from rv.props.C01 import mat, build, frep
from fixif.func_aux import MPFMatrix

PROPERTY = 'C04'
RULE = ('random matrices 1x1..5x5 given as MPFMatrix, numpy matrix, numpy array or mpmath matrix, combined by +, -, * at working precisions '
        '20..300, histories that modify the sources afterwards, comparisons with one altered entry; non-trivial when the matrices are not 1x1')
ASSUMPTIONS = ['finite real entries', 'rounding of one working-precision operation per term (factor 2 of slack)']
PRECS = [20, 53, 53, 53, 100, 300]


def operand(rng, kind, A):
    """(object to give, exact value seen)"""
    if kind == 'MPFMatrix':
        return MPFMatrix(o.mpmat(A))
    if kind == 'mpmath':
        return o.mpmat(A)
    if kind == 'array':
        return numpy.array(o.npmat(A))
    return o.npmat(A)


def val(X):
    return o.fmat(X.matrix) if isinstance(X, MPFMatrix) else frep(X) if isinstance(X, numpy.ndarray) else o.fmat(X)


def operators(m, rng, i):
    op = '+-*'[i % 3]
    kind = rng.choice(['MPFMatrix', 'mpmath', 'matrix', 'array', 'array2'])
    if kind == 'array2':
        kind = 'array'
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    c, d = (b, rng.randint(1, 5)) if op == '*' else (a, b)
    sc = rng.choice([3, 40])
    A = mat(rng, 'mp', a, b, sc)
    B = mat(rng, 'mp' if kind in ('MPFMatrix', 'mpmath') else 'double', c, d, sc)
    B = [[x if abs(x) < F(2) ** 900 and (x == 0 or abs(x) > F(2) ** -900) else F(1) for x in r] for r in B]
    prec = rng.choice(PRECS)
    m.case({'op': op, 'kind': kind, 'shapes': [(a, b), (c, d)], 'prec': prec}, nontrivial=a * b * c * d > 1, key=(op, kind, A, B, prec))
    X, Y = MPFMatrix(o.mpmat(A)), operand(rng, kind, B)
    mpmath.mp.prec = prec
    R = X + Y if op == '+' else X - Y if op == '-' else X * Y
    m.ok('working precision kept', mpmath.mp.prec == prec, 'the working precision has changed')
    mpmath.mp.prec = 53
    if not m.ok('result kind', isinstance(R, MPFMatrix), 'the result is not a MPFMatrix', got=type(R)):
        return
    if op == '*':
        ref, mag = o.mul(A, B), o.mul(o.absm(A), o.absm(B))
        tol = F(2 * (b + 1)) / F(2) ** prec
    else:
        ref = o.add(A, B) if op == '+' else o.sub(A, B)
        mag, tol = o.add(o.absm(A), o.absm(B)), F(2) / F(2) ** prec
    m.ok('operator result', o.close_mats(o.fmat(R.matrix), ref, tol, mag), 'wrong result of %s' % op, got=o.fmat(R.matrix), expected=ref)
    m.ok('operands untouched', val(X) == A and val(Y) == B, 'an operand was modified')
    R.matrix[0, 0] = mpmath.mpf(7777)
    m.ok('operands untouched', val(X) == A and val(Y) == B, 'the result shares its entries with an operand')


def construct(m, rng, i):
    kind = rng.choice(['mpmath', 'matrix', 'array', 'vector', 'int', 'view'])
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    if kind == 'vector':
        b = 1
    A = mat(rng, 'mp' if kind == 'mpmath' else 'int' if kind == 'int' else 'double', a, b, rng.choice([3, 200]))
    m.case({'construct': kind, 'shape': (a, b)}, nontrivial=a * b > 1, key=(kind, A))
    if kind == 'mpmath':
        S = o.mpmat(A)
    elif kind == 'matrix':
        S = o.npmat(A)
    elif kind == 'int':
        S = numpy.matrix([[int(x) for x in r] for r in A], dtype=numpy.int64)
    elif kind == 'view':
        S = o.npmat(o.T(A)).T
    elif kind == 'vector':
        S = numpy.array([float(r[0]) for r in A])
    else:
        S = numpy.array(o.npmat(A))
    mpmath.mp.prec = rng.choice([5, 53, 200])
    X = MPFMatrix(S)
    mpmath.mp.prec = 53
    good = X.shape == (a, b) and (X.rows, X.cols) == (a, b)
    m.ok('holds its entries', good and o.fmat(X.matrix) == A and all(o.frac(X[r, c]) == A[r][c] for r in range(a) for c in range(b)),
         'the matrix does not hold the entries of its source (%s)' % kind, got=o.fmat(X.matrix), expected=A)
    Y = MPFMatrix(X.matrix)
    # history: modify the sources
    if kind == 'vector':
        S[0] = 99.
    else:
        S[0, 0] = 99
        S[a - 1, b - 1] = -98
    m.ok('independent of its source', o.fmat(X.matrix) == A, 'modifying the source modified the matrix (%s)' % kind)
    X.matrix[a - 1, b - 1] = mpmath.mpf('0.1')
    m.ok('independent of its source', o.fmat(Y.matrix) == A, 'two matrices share their entries')
    m.ok('independent of its source', (frep(S)[0][0] if kind not in ('mpmath', 'vector') else 0) != F(0.1), 'the source was modified')


def compare(m, rng, i):
    kind = rng.choice(['MPFMatrix', 'mpmath', 'matrix', 'array'])
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    A = mat(rng, 'double', a, b, 20)
    A = [[x if abs(x) < F(2) ** 900 and (x == 0 or abs(x) > F(2) ** -900) else F(1) for x in r] for r in A]
    B = [list(r) for r in A]
    r, c = rng.randrange(a), rng.randrange(b)
    how = rng.choice(['same', 'ulp', 'small', 'large', 'sign'])
    x = A[r][c]
    if how == 'ulp':
        B[r][c] = o.frac(float(numpy.nextafter(float(x), 1e300))) if x else F(1, 2 ** 100)
    elif how == 'small':
        B[r][c] = o.rnd(x * (1 + F(1, 2 ** 20)), 53) if x else F(1, 2 ** 20)
    elif how == 'large':
        B[r][c] = x + 1 + abs(x)
    elif how == 'sign':
        B[r][c] = -x
    X, Y = MPFMatrix(o.mpmat(A)), operand(rng, kind, B)
    m.case({'compare': how, 'kind': kind, 'shape': (a, b), 'at': (r, c)}, nontrivial=a * b > 1, key=(how, kind, A, B))
    same = A == B
    m.ok('equal', X.equal(Y) is same, 'equal() is wrong: %s entry' % how, A=A, B=B)
    m.ok('equal', MPFMatrix(o.mpmat(B)).equal(MPFMatrix(o.mpmat(A))) is same, 'equal() is wrong (swapped): %s entry' % how, A=A, B=B)
    # almost_close(eps): every entry within eps, absolutely or relatively (the rule of mpmath.almosteq); eps = 0 is equality
    d = abs(A[r][c] - B[r][c])
    mag = max(abs(A[r][c]), abs(B[r][c]))
    m.ok('almost_close', bool(X.almost_close(Y)) is same, 'almost_close() is wrong: %s entry, no tolerance' % how, A=A, B=B)
    for f in (F(1, 4), F(1, 2), F(2), F(8)):
        eps = float((d if d else F(1, 2 ** 30)) * f)
        exp = d <= F(eps) * max(1, mag)
        for nm, U, V in (('', X, Y), (' (swapped)', MPFMatrix(o.mpmat(B)), MPFMatrix(o.mpmat(A)))):
            # stay away from the threshold
            if d == 0 or not F(9, 10) <= d / (F(eps) * max(1, mag)) <= F(11, 10):
                m.ok('almost_close', bool(U.almost_close(V, abs_eps=eps)) is exp, 'almost_close() is wrong: %s entry%s' % (how, nm), A=A, B=B, eps=eps)


def refusals(m, rng, i):
    a, b = rng.randint(1, 4), rng.randint(1, 4)
    X = MPFMatrix(o.mpmat(mat(rng, 'mp', a, b, 5)))
    c, d = rng.choice([(a + 1, b), (a, b + 1), (b, a) if a != b else (a + 1, b + 1), (1, b) if a > 1 else (a + 2, b), (a, 1) if b > 1 else (a, b + 2), (1, 1) if a * b > 1 else (2, 2)])
    Y = MPFMatrix(o.mpmat(mat(rng, 'mp', c, d, 5)))
    k = rng.choice(['MPFMatrix', 'mpmath', 'matrix', 'array'])
    Z = Y if k == 'MPFMatrix' else operand(rng, k, [[o.rnd(x, 53) for x in r] for r in o.fmat(Y.matrix)])
    m.case({'refused': 'size', 'kind': k, 'shapes': [(a, b), (c, d)]})
    m.raises('refusals', ValueError, lambda: X + Z, 'sum of different sizes')
    m.raises('refusals', ValueError, lambda: X - Z, 'difference of different sizes')
    if c != b:
        m.raises('refusals', ValueError, lambda: X * Z, 'product of incompatible sizes')
    m.raises('refusals', ValueError, lambda: X.equal(Z), 'comparison of different sizes')
    m.raises('refusals', ValueError, lambda: X.almost_close(Z), 'comparison of different sizes')
    for bad in (3.5, 'x', None, [[1.0]]):
        m.raises('refusals', ValueError, lambda: MPFMatrix(bad), 'unsupported source')
        m.raises('refusals', ValueError, lambda: X + bad, 'unsupported operand')
        m.raises('refusals', ValueError, lambda: X - bad, 'unsupported operand')
        m.raises('refusals', ValueError, lambda: X * bad, 'unsupported operand')
        m.raises('refusals', ValueError, lambda: X.equal(bad), 'unsupported operand')


WORKLOADS = [Workload('operators', operators, 5400, 18000), Workload('construct', construct, 3000, 10000), Workload('compare', compare, 4200, 14000),
             Workload('refusals', refusals, 600, 1500)]
EXPECT = {'operator result': 800, 'holds its entries': 400, 'independent of its source': 800, 'equal': 1000, 'almost_close': 1000, 'refusals': 1000}
