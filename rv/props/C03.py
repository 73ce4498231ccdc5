# coding: utf-8
"""C03: conversions between number formats"""
import io
import contextlib
import io
from fractions import Fraction as F
import numpy
import mpmath
from rv import oracle as o
from rv.core import Workload
from rv.props.C01 import entry, mat, frep
from fixif.func_aux import (python2mpf_matrix, mpf_to_numpy, mpf_get_representation, mpf_matrix_get_representation,
                            mpf_matrix_to_sollya, sollya_matrix_to_numpy, write_matrix_hex, mpc_get_real, MPFMatrix)

PROPERTY = 'C03'
RULE = ('random scalars and matrices 1x1..6x6 (rectangular included) of doubles, integers or multiple-precision numbers of 1..400 bits, working '
        'precisions 2..400, with halfway cases of the double rounding; non-trivial when a value does not fit the working precision, is a '
        'rounding case or the matrix is rectangular')
ASSUMPTIONS = ['finite real values within the normal range of doubles for the narrowing conversions',
               'sollya is replaced by an exact rational stand-in (stubs/sollya)']
PRECS = [2, 10, 24, 53, 53, 64, 113, 400]


def near_double(rng):
    """a value that is hard to round to double precision"""
    d = F(rng.getrandbits(53) | (1 << 52)) * rng.choice((1, -1))
    how = rng.randrange(6)
    h = F(1, 2)
    t = F(1, 2 ** rng.randint(2, 300))
    d += [F(0), h, h + t, h - t, t, F(rng.getrandbits(60), 2 ** 60)][how]
    return d * F(2) ** rng.choice([-52, 0, rng.randint(-900, 800)])


def widening(m, rng, i):
    a, b = rng.randint(1, 6), rng.randint(1, 6)
    kind = rng.choice(['double', 'double', 'int', 'int64'])
    A = mat(rng, kind, a, b, rng.choice([5, 60, 900]))
    prec = rng.choice(PRECS)
    m.case({'conv': 'widening', 'shape': (a, b), 'kind': kind, 'prec': prec, 'A': o.sbm(A[:2])},
           nontrivial=any(o.rnd(x, prec) != x for r in A for x in r) or a != b, key=(A, prec))
    X = numpy.matrix([[int(x) for x in r] for r in A], dtype=numpy.int64) if kind != 'double' else o.npmat(A)
    if rng.random() < 0.3:
        X = X.T.copy().T       # Fortran ordered
    if rng.random() < 0.2:
        X = numpy.matrix(numpy.vstack([X, X]))[:a, :]
    mpmath.mp.prec = prec
    M = python2mpf_matrix(X)
    P = MPFMatrix(X)
    m.ok('working precision kept', mpmath.mp.prec == prec, 'the working precision has changed')
    mpmath.mp.prec = 53
    m.ok('widening exact', o.fmat(M) == A, 'python2mpf_matrix is not exact', got=o.fmat(M), expected=A)
    m.ok('widening exact', o.fmat(P.matrix) == A and P.shape == (a, b), 'MPFMatrix(numpy) is not exact', got=o.fmat(P.matrix), expected=A)
    if kind == 'double':
        mpmath.mp.prec = prec
        N = mpf_to_numpy(M)
        N2 = P.to_numpy()
        mpmath.mp.prec = 53
        m.ok('round trip', frep(N) == A and frep(N2) == A, 'double -> mp -> double is not the identity', A=A, got=N)
        f = io.StringIO()
        delim = rng.choice([' ', '\t', ', ', ';'])
        write_matrix_hex(f, X, delim)
        lines = f.getvalue().split('\n')
        got = [[float.fromhex(t) for t in l.split(delim) if t.strip()] for l in lines if l.strip()]
        m.ok('hexadecimal text', got == [[float(x) for x in r] for r in A], 'the hexadecimal text does not hold the matrix', text=f.getvalue(), A=A)


def narrowing(m, rng, i):
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    A = [[F(0) if rng.random() < 0.05 else near_double(rng) for _ in range(b)] for _ in range(a)]
    prec = rng.choice(PRECS)
    m.case({'conv': 'narrowing', 'shape': (a, b), 'prec': prec, 'A00': repr(A[0][0])[:80]}, key=(A, prec))
    X = o.mpmat(A)
    ref = [[o.todouble(x) for x in r] for r in A]
    P = MPFMatrix(X)
    mpmath.mp.prec = prec
    N, N2 = mpf_to_numpy(X), P.to_numpy()
    s = mpf_to_numpy(X[0, 0])
    m.ok('working precision kept', mpmath.mp.prec == prec, 'the working precision has changed')
    mpmath.mp.prec = 53
    for name, V in (('mpf_to_numpy', N), ('MPFMatrix.to_numpy', N2)):
        m.ok('correct rounding', isinstance(V, numpy.matrix) and V.tolist() == ref, '%s is not correctly rounded' % name, A=A, got=V, expected=ref)
    m.ok('correct rounding', isinstance(s, float) and s == ref[0][0], 'mpf_to_numpy(scalar) is not correctly rounded', got=s, expected=ref[0][0])


def integers(m, rng, i):
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    A = mat(rng, rng.choice(['mp', 'double']), a, b, rng.choice([5, 100, 1000]))
    prec = rng.choice(PRECS)
    m.case({'conv': 'mantissa/exponent, sollya', 'shape': (a, b), 'prec': prec, 'A00': str(A[0][0])[:60]},
           nontrivial=any(o.rnd(x, prec) != x for r in A for x in r) or a != b, key=(A, prec))
    X = o.mpmat(A)
    P = MPFMatrix(X)
    mpmath.mp.prec = prec
    y, n = mpf_get_representation(X[a - 1, b - 1])
    Y, N = mpf_matrix_get_representation(X)
    Y2, N2 = P.get_int_representation()
    S, sm, sn = mpf_matrix_to_sollya(X)
    S2, sm2, sn2 = P.to_sollya()
    B = sollya_matrix_to_numpy(S, sm, sn)
    m.ok('working precision kept', mpmath.mp.prec == prec, 'the working precision has changed')
    mpmath.mp.prec = 53

    def isint(v):
        return isinstance(v, int) or type(v).__name__ == 'mpz'
    m.ok('integer representation', isint(y) and isint(n) and F(int(y)) * F(2) ** int(n) == A[-1][-1], 'y*2^n is not the scalar', y=y, n=n, x=A[-1][-1])
    for nm, (U, V) in (('mpf_matrix_get_representation', (Y, N)), ('get_int_representation', (Y2, N2))):
        good = U.shape == (a, b) and V.shape == (a, b) and all(
            isint(U[r, c]) and isint(V[r, c]) and F(int(U[r, c])) * F(2) ** int(V[r, c]) == A[r][c] for r in range(a) for c in range(b))
        m.ok('integer representation', good, '%s: Y*2^N is not the matrix' % nm, Y=U, N=V, A=A)
    flat = [x for r in A for x in r]
    for nm, (s, p, q) in (('mpf_matrix_to_sollya', (S, sm, sn)), ('to_sollya', (S2, sm2, sn2))):
        m.ok('sollya', (p, q) == (a, b) and [x.value for x in s] == flat, '%s: wrong list' % nm, got=[x.value for x in s], expected=flat)
    ref = [[o.todouble(x) if abs(x) < F(2) ** 1020 else None for x in r] for r in A]
    if all(v is not None for r in ref for v in r) and all(x == 0 or abs(x) > F(2) ** -1000 for r in A for x in r):
        m.ok('sollya to double', B.shape == (a, b) and B.tolist() == ref, 'sollya -> numpy is not correctly rounded', got=B, expected=ref)


def sollya_back(m, rng, i):
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    A = [[F(0) if rng.random() < 0.1 else near_double(rng) for _ in range(b)] for _ in range(a)]
    m.case({'conv': 'sollya to double', 'shape': (a, b)}, key=A)
    import sollya
    B = sollya_matrix_to_numpy([sollya.SollyaObject(x) for r in A for x in r], a, b)
    ref = [[o.todouble(x) for x in r] for r in A]
    m.ok('sollya to double', isinstance(B, numpy.matrix) and B.tolist() == ref, 'sollya -> numpy is not correctly rounded', got=B, expected=ref)
    # what is printed: every element once, row by row
    L = [sollya.SollyaObject(x) for r in A for x in r]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sollya_matrix_print(L, a, b)
    m.ok('sollya print', out.getvalue().split() == [str(x) for x in L], 'the printed matrix does not have the elements, row by row', got=out.getvalue()[:300], A=A)
    # real part of a complex matrix
    C = mat(rng, 'mp', a, b, 50)
    D = mat(rng, 'mp', a, b, 50)
    Z = mpmath.matrix(a, b)
    for r in range(a):
        for c in range(b):
            Z[r, c] = mpmath.mpc(0)
            Z[r, c] = mpmath.mp.make_mpc((o.mpf_exact(C[r][c])._mpf_, o.mpf_exact(D[r][c])._mpf_)) if rng.random() < 0.85 else o.mpf_exact(C[r][c])
    mpmath.mp.prec = rng.choice(PRECS)
    R = mpc_get_real(Z)
    mpmath.mp.prec = 53
    good = (R.rows, R.cols) == (a, b) and all(o.is_mpf(R[r, c]) for r in range(a) for c in range(b))
    m.ok('real part', good and o.fmat(R) == C, 'the real part of a complex matrix is wrong', got=R)


def refusals(m, rng, i):
    a, b = rng.randint(1, 4), rng.randint(1, 4)
    A = mat(rng, 'double', a, b, 5)
    r, c = rng.randrange(a), rng.randrange(b)
    bad = rng.choice([mpmath.inf, -mpmath.inf, mpmath.nan])
    X = o.mpmat(A)
    X[r, c] = bad
    m.case({'refused': str(bad), 'shape': (a, b), 'at': (r, c)})
    m.raises('refusals', ValueError, lambda: mpf_get_representation(mpmath.mpf(bad)), 'not a finite scalar')
    m.raises('refusals', ValueError, lambda: mpf_matrix_get_representation(X), 'not a finite entry')
    m.raises('refusals', ValueError, lambda: MPFMatrix(X).get_int_representation(), 'not a finite entry')
    m.raises('refusals', ValueError, lambda: mpf_matrix_to_sollya(X), 'not a finite entry')
    m.raises('refusals', ValueError, lambda: MPFMatrix(X).to_sollya(), 'not a finite entry')
    Y = o.mpmat(A)
    Y[r, c] = mpmath.mpc(1, 2)
    m.raises('refusals', ValueError, lambda: mpf_matrix_get_representation(Y), 'complex entry')
    m.raises('refusals', ValueError, lambda: mpf_matrix_to_sollya(Y), 'complex entry')
    m.raises('refusals', (ValueError, TypeError), lambda: mpf_to_numpy(Y), 'complex entry')
    Yn = numpy.matrix(o.npmat(A), dtype=complex)
    Yn[r, c] += 1j
    m.raises('refusals', (ValueError, TypeError), lambda: python2mpf_matrix(Yn), 'complex entry')
    for v in (1.5, 3, mpmath.mpc(1, 1), 'x', None):
        m.raises('refusals', ValueError, lambda: mpf_get_representation(v), 'not a multiple-precision scalar')
    for v in (A, numpy.array([[1.0]]), 3.5, 'x', None):
        m.raises('refusals', ValueError, lambda: python2mpf_matrix(v), 'not a numpy matrix')
        m.raises('refusals', ValueError, lambda: mpf_to_numpy(v), 'not a multiple-precision matrix')
        m.raises('refusals', ValueError, lambda: mpf_matrix_to_sollya(v), 'not a multiple-precision matrix')


def empties(m, rng, i):
    """matrices without row or column (systems without state): the size is kept"""
    sh = rng.choice([(0, rng.randint(0, 5)), (rng.randint(0, 5), 0)])
    m.case({'conv': 'empty', 'shape': sh}, key=(sh, i))
    Z, M = numpy.matrix(numpy.zeros(sh)), mpmath.zeros(*sh)
    W = python2mpf_matrix(Z)
    m.ok('empty', isinstance(W, mpmath.matrix) and (W.rows, W.cols) == sh, 'python2mpf_matrix', got=(W.rows, W.cols))
    m.ok('empty', mpf_to_numpy(M).shape == sh and MPFMatrix(M).to_numpy().shape == sh, 'mpf_to_numpy')
    m.ok('empty', all(x.shape == sh for x in mpf_matrix_get_representation(M) + MPFMatrix(M).get_int_representation()), 'get_representation')
    m.ok('empty', tuple(mpf_matrix_to_sollya(M)) == ([],) + sh and sollya_matrix_to_numpy([], *sh).shape == sh, 'sollya')
    R = mpc_get_real(M)
    m.ok('empty', (R.rows, R.cols) == sh, 'real part')


from fixif.func_aux.sollya_matrix_print import sollya_matrix_print  # noqa


WORKLOADS = [Workload('widening', widening, 4200, 14000), Workload('narrowing', narrowing, 3600, 12000), Workload('integers', integers, 3600, 12000),
             Workload('sollya', sollya_back, 2400, 8000), Workload('refusals', refusals, 600, 1000), Workload('empty', empties, 80, 300)]
EXPECT = {'widening exact': 1000, 'correct rounding': 1000, 'integer representation': 1000, 'sollya': 800, 'sollya print': 1000, 'refusals': 1000, 'hexadecimal text': 200, 'real part': 300, 'empty': 200}
