# coding: utf-8
"""C01: exact sum, difference and product of matrices"""
import contextlib
import io
from fractions import Fraction as F
import numpy
import mpmath
from rv import oracle as o
from rv.core import Workload
from fixif.func_aux import mpf_matrix_fadd, mpf_matrix_fsub, mpf_matrix_fmul, MPFMatrix

PROPERTY = 'C01'
RULE = ('random real matrices 1x1..6x6 (rectangular included, and matrices without row or column), entries dyadic with exponents from close to 2^+-3000 apart, doubles '
        '(also subnormal/huge) or long mantissas, evaluated at working precisions 2..400; a case is non-trivial when the exact result '
        'does not fit the working precision or operands are rectangular')
ASSUMPTIONS = ['finite real entries', 'Python rational arithmetic is the reference']
PRECS = [2, 10, 24, 53, 53, 53, 64, 113, 200, 400]


def entry(rng, kind, scale):
    """exact dyadic Fraction; double when kind != 'mp'"""
    if rng.random() < 0.12:
        return F(0)
    s = rng.choice((1, -1))
    if kind == 'int':
        return F(s * rng.choice([1, 2, 3, rng.getrandbits(20), rng.getrandbits(53)]))
    if kind == 'int64':
        return F(s * rng.getrandbits(rng.choice([3, 30, 53, 62])))
    if kind == 'mp':
        bits = rng.choice([1, 20, 53, 54, 120, 300])
        e = rng.choice([0, 0, rng.randint(-scale, scale)])
        return F(s * (rng.getrandbits(bits) | 1)) * F(2) ** (e - bits)
    r = rng.random()
    if r < 0.06:
        return F(s * 5e-324 * rng.randint(1, 1000))
    if r < 0.12:
        return F(s * rng.uniform(1e300, 1.7e308))
    e = rng.choice([0, 0, rng.randint(-min(scale, 900), min(scale, 900))])
    return F(s * (rng.getrandbits(53) | 1)) * F(2) ** (e - 53)


def build(rng, kind, A):
    if kind == 'mp':
        return o.mpmat(A)
    if kind == 'int':
        return numpy.matrix([[int(x) for x in r] for r in A], dtype=numpy.int64)
    if kind == 'int64':
        return numpy.matrix([[int(x) for x in r] for r in A], dtype=numpy.int64)
    return o.npmat(A)


def frep(M):
    """exact value of a numpy matrix, integers included"""
    if isinstance(M, numpy.ndarray):
        return [[F(int(M[i, j])) if numpy.issubdtype(M.dtype, numpy.integer) else F(float(M[i, j])) for j in range(M.shape[1])] for i in range(M.shape[0])]
    return o.fmat(M)


def mat(rng, kind, a, b, scale):
    return [[entry(rng, kind, scale) for _ in range(b)] for _ in range(a)]


def operands(rng, op):
    a, b = rng.randint(1, 6), rng.randint(1, 6)
    if rng.random() < 0.2:
        a = 1
    if rng.random() < 0.2:
        b = 1
    if rng.random() < 0.04:
        a, b = rng.choice([(rng.randint(1, 3), rng.randint(7, 40)), (rng.randint(7, 12), rng.randint(1, 12)), (rng.randint(7, 40), 1)])
    c = rng.randint(1, 6) if op == 'mul' else None
    scale = rng.choice([5, 60, 900, 3000])
    k1, k2 = rng.choice(['mp', 'double', 'int', 'int64', 'double', 'mp']), rng.choice(['mp', 'double', 'mp', 'double', 'int'])
    A = mat(rng, k1, a, b, scale)
    B = mat(rng, k2, b if op == 'mul' else a, c if op == 'mul' else b, scale)
    if op != 'mul' and k1 == k2 and rng.random() < 0.4:
        # near-cancellation
        for i in range(a):
            for j in range(b):
                if rng.random() < 0.6:
                    B[i][j] = -A[i][j] if op == 'add' else A[i][j]
                    if rng.random() < 0.5 and k1 == 'mp' and A[i][j]:
                        B[i][j] += F(2) ** -rng.randint(50, 4000)
    return A, B, k1, k2


REF = {'add': o.add, 'sub': o.sub, 'mul': lambda A, B: o.mul(A, B)}
FUNC = {'add': mpf_matrix_fadd, 'sub': mpf_matrix_fsub, 'mul': mpf_matrix_fmul}
METH = {'add': 'add_exact', 'sub': 'sub_exact', 'mul': 'mul_exact'}


def fits(A, prec):
    return all(o.rnd(x, prec) == x for r in A for x in r)


def exact_ops(m, rng, i):
    op = ('add', 'sub', 'mul')[i % 3]
    A, B, k1, k2 = operands(rng, op)
    prec = rng.choice(PRECS)
    ref = REF[op](A, B)
    m.case({'op': op, 'shapes': [o.shape(A), o.shape(B)], 'kinds': [k1, k2], 'prec': prec, 'A': o.sbm(A[:2]) if o.maxabs(A) < 1e300 else '(large)'},
           nontrivial=not fits(ref, prec) or len(A) != len(A[0]), key=(op, A, B, prec))
    X, Y = build(rng, k1, A), build(rng, k2, B)
    same = rng.random() < 0.1 and o.shape(A) == o.shape(B) and (op != 'mul' or len(A) == len(A[0]))
    if same:
        Y, B, ref = X, A, REF[op](A, A)
    mpmath.mp.prec = prec
    C = FUNC[op](X, Y)
    m.ok('working precision kept', mpmath.mp.prec == prec, 'the working precision has changed', prec=mpmath.mp.prec)
    mpmath.mp.prec = 53
    m.ok('exact result', o.fmat(C) == ref, 'the result is not the exact one', op=op, got=o.fmat(C) if o.maxabs(ref) < 2 ** 60 else '', expected=ref if o.maxabs(ref) < 2 ** 60 else '')
    m.ok('operands untouched', frep(X) == A and frep(Y) == B, 'an operand was modified', op=op)


def method_ops(m, rng, i):
    op = ('add', 'sub', 'mul')[i % 3]
    A, B, k1, k2 = operands(rng, op)
    prec = rng.choice(PRECS)
    ref = REF[op](A, B)
    m.case({'op': METH[op], 'shapes': [o.shape(A), o.shape(B)], 'kinds': [k1, k2], 'prec': prec}, nontrivial=not fits(ref, prec), key=(op, A, B, prec))
    X, Y = MPFMatrix(build(rng, 'mp', A)), MPFMatrix(build(rng, 'mp', B))
    mpmath.mp.prec = prec
    C = getattr(X, METH[op])(Y)
    m.ok('working precision kept', mpmath.mp.prec == prec, 'the working precision has changed', prec=mpmath.mp.prec)
    mpmath.mp.prec = 53
    m.ok('exact result', isinstance(C, MPFMatrix) and C.shape == o.shape(ref) and o.fmat(C.matrix) == ref, 'the result is not the exact one', op=op)
    m.ok('operands untouched', o.fmat(X.matrix) == A and o.fmat(Y.matrix) == B, 'an operand was modified', op=op)
    # the result does not alias the operands
    if op != 'mul':
        C.matrix[0, 0] = mpmath.mpf(12345)
        m.ok('operands untouched', o.fmat(X.matrix) == A and o.fmat(Y.matrix) == B, 'the result shares its entries with an operand', op=op)


def abnormal(m, rng, i):
    """a NaN or an infinity among the entries is signalled, and only then"""
    op = ('add', 'sub', 'mul')[i % 3]
    a, b = rng.randint(1, 4), rng.randint(1, 4)
    c = rng.randint(1, 4)
    A = [[F(rng.randint(-2 ** 20, 2 ** 20), 2 ** rng.randint(0, 30)) for _ in range(b)] for _ in range(a)]
    B = [[F(rng.randint(-2 ** 20, 2 ** 20), 2 ** rng.randint(0, 30)) for _ in range(c if op == 'mul' else b)] for _ in range(b if op == 'mul' else a)]
    X, Y = o.npmat(A), o.npmat(B)
    kind = rng.choice(['inf', 'nan', '-inf', 'none', 'cancel'])
    if kind != 'none':
        T = rng.choice([X, Y])
        T[rng.randrange(T.shape[0]), rng.randrange(T.shape[1])] = float(kind) if kind != 'cancel' else float('inf')
        if kind == 'cancel' and op != 'mul':
            w = numpy.argwhere(numpy.isinf(T))[0]
            X[w[0], w[1]] = float('inf')
            Y[w[0], w[1]] = float('-inf') if op == 'add' else float('inf')
    with numpy.errstate(all='ignore'):
        ref = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
    m.case({'op': op, 'entry': kind, 'shapes': [X.shape, Y.shape]}, nontrivial=kind != 'none', key=(op, kind, A, B))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if rng.random() < 0.4:
            C = getattr(MPFMatrix(mpmath.matrix(X.tolist())), METH[op])(MPFMatrix(mpmath.matrix(Y.tolist()))).matrix
        else:
            C = FUNC[op](mpmath.matrix(X.tolist()) if rng.random() < 0.5 else X, Y)
    odd = sum(not numpy.isfinite(x) for x in ref.flat)
    m.ok('abnormal values', all(not mpmath.isfinite(C[r, k]) if not numpy.isfinite(ref[r, k]) else mpmath.isfinite(C[r, k]) for r in range(ref.shape[0]) for k in range(ref.shape[1])),
         'NaN / Inf entries are not where they should be', op=op, got=str(C), ref=str(ref))
    m.ok('abnormal values', (odd > 0) == ('WARNING' in out.getvalue()), 'the warning about NaN / Inf entries is missing, or given without reason', op=op, odd=odd, printed=out.getvalue()[:200])


def refusals(m, rng, i):
    op = ('add', 'sub', 'mul')[i % 3]
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    kind = rng.choice(['size', 'size', 'complex', 'type'])
    k1, k2 = rng.choice(['mp', 'double']), rng.choice(['mp', 'double'])
    A = mat(rng, k1, a, b, 5)
    if kind == 'size':
        if op == 'mul':
            c = rng.choice([x for x in range(1, 7) if x != b])
            B = mat(rng, k2, c, rng.choice([a, b, rng.randint(1, 5)]), 5)
        else:
            while True:
                c, d = rng.choice([(b, a), (a, b + 1), (a + 1, b), (1, b), (a, 1)])
                if (c, d) != (a, b):
                    break
            B = mat(rng, k2, c, d, 5)
        X, Y = build(rng, k1, A), build(rng, k2, B)
        m.case({'refused': 'size', 'op': op, 'shapes': [o.shape(A), o.shape(B)], 'kinds': [k1, k2]})
        m.raises('refusals', ValueError, lambda: FUNC[op](X, Y), 'incompatible sizes')
        m.raises('refusals', ValueError, lambda: getattr(MPFMatrix(X), METH[op])(MPFMatrix(Y)), 'incompatible sizes (method)')
    elif kind == 'complex':
        B = mat(rng, k2, b if op == 'mul' else a, a if op == 'mul' else b, 5)
        X, Y = build(rng, k1, A), build(rng, k2, B)
        Z = mpmath.matrix(len(A), len(A[0]))
        for r in range(len(A)):
            for c in range(len(A[0])):
                Z[r, c] = mpmath.mpc(o.mpf_exact(A[r][c]), 1)
        m.case({'refused': 'complex', 'op': op, 'shape': o.shape(A)})
        m.raises('refusals', ValueError, lambda: FUNC[op](Z, Y), 'complex operand')
        m.raises('refusals', ValueError, lambda: FUNC[op](Y, Z), 'complex second operand')
        # a single complex element, anywhere
        W = build(rng, 'mp', A)
        W[rng.randrange(a), rng.randrange(b)] = mpmath.mpc(1.5, rng.choice([0, 1, 1e-300]))
        w = numpy.matrix(o.npmat(A), dtype=complex)
        w[rng.randrange(a), rng.randrange(b)] = 1.5 + rng.choice([1, 1e-300]) * 1j
        for Wi in (W, w):
            m.raises('refusals', (ValueError, TypeError), lambda: FUNC[op](Wi, Y), 'one complex element')
            m.raises('refusals', (ValueError, TypeError), lambda: FUNC[op](Y, Wi), 'one complex element in the second operand')
        m.raises('refusals', (ValueError, TypeError), lambda: getattr(MPFMatrix(W), METH[op])(Y), 'one complex element (method)')
        zn = numpy.matrix(o.npmat(A), dtype=complex) * (1 + 1j)
        m.raises('refusals', (ValueError, TypeError), lambda: FUNC[op](Y, zn), 'complex numpy second operand')
        m.raises('refusals', (ValueError, TypeError), lambda: FUNC[op](zn, Y), 'complex numpy operand')
    else:
        X = build(rng, k1, A)
        bad = rng.choice([A, 3.5, 'A', None, numpy.array([[1.0, 2.0]])])
        m.case({'refused': 'type', 'op': op, 'bad': str(type(bad))})
        m.raises('refusals', ValueError, lambda: FUNC[op](X, bad), 'unsupported 2nd operand')
        m.raises('refusals', ValueError, lambda: FUNC[op](bad, X), 'unsupported 1st operand')
        m.raises('refusals', ValueError, lambda: getattr(MPFMatrix(X), METH[op])(bad), 'unsupported operand of the method')


def empties(m, rng, i):
    """matrices without row, column or inner dimension (systems without state)"""
    op = ('add', 'sub', 'mul')[i % 3]
    a, b, c = [rng.choice([0, 0, 1, 2, 5]) for _ in range(3)]
    if op != 'mul':
        b = b if a == 0 else 0
    s1, s2, s3 = (a, b), ((b, c) if op == 'mul' else (a, b)), ((a, c) if op == 'mul' else (a, b))
    def rnd(s):
        X = numpy.matrix([[rng.uniform(-5, 5) for _ in range(s[1])] for _ in range(s[0])]).reshape(s)
        if rng.random() < 0.5:
            return X
        M = mpmath.matrix(*s)
        for r in range(s[0]):
            for k in range(s[1]):
                M[r, k] = mpmath.mpf(X[r, k])
        return M
    X, Y = rnd(s1), rnd(s2)
    m.case({'op': op, 'shapes': [s1, s2]}, key=(op, s1, s2, str(X), str(Y)), nontrivial=0 in s1 + s2)
    C = FUNC[op](X, Y)
    m.ok('empty matrices', isinstance(C, mpmath.matrix) and (C.rows, C.cols) == s3, 'the result does not have the right size', op=op, got=(C.rows, C.cols))
    if 0 not in s1 + s2:
        m.ok('empty matrices', o.fmat(C) == REF[op](frep(X), frep(Y)), 'not exact')
    else:
        m.ok('empty matrices', all(o.is_mpf(x) and x == 0 for x in C), 'an empty sum is 0', got=str(C))
    bad = (s2[0] + 1, s2[1])
    m.raises('refusals', ValueError, lambda: FUNC[op](X, rnd(bad)), 'incompatible sizes')


WORKLOADS = [Workload('functions', exact_ops, 12000, 200000), Workload('methods', method_ops, 6000, 100000), Workload('refusals', refusals, 1500, 15000),
             Workload('abnormal', abnormal, 900, 9000), Workload('empty', empties, 300, 3000)]
EXPECT = {'exact result': 10000, 'operands untouched': 10000, 'working precision kept': 10000, 'refusals': 2500, 'abnormal values': 1500, 'empty matrices': 500}
