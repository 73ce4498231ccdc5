# coding: utf-8
"""C06: algebra of state-space systems"""
from fractions import Fraction as F
import numpy
from rv import oracle as o
from rv.core import Workload
from fixif.LTI import dSS

PROPERTY = 'C06'
RULE = ('random dyadic systems (0..5 states, 1..4 inputs, 1..4 outputs, stable or not) for which the double computations are exact, combined by '
        '+, -, *, [,] and similarity, alone and in random expressions; impulse responses are compared exactly over more samples than states '
        '(the change of basis within rounding); non-trivial when the response is not null')
ASSUMPTIONS = ['entries of at most 8 bits, so that the block matrices are exact in double precision', 'at least one input and one output']


def nstates(rng, k=5):
    """number of states: some systems are simple gains"""
    return 0 if rng.random() < 0.08 else rng.randint(1, k)


def rand_sys(rng, n=None, p=None, q=None, bits=5):
    n = nstates(rng) if n is None else n
    p = p or rng.randint(1, 4)
    q = q or rng.randint(1, 4)
    if rng.random() < 0.15:
        return tuple(o.structured(rng, a, b, 7) if a and b and rng.random() < 0.7 else o.rand_mat(rng, a, b, bits, -2, 2, 0.15) for a, b in ((n, n), (n, q), (p, n), (p, q)))
    return tuple(o.rand_mat(rng, a, b, bits, -2, 2, 0.15) for a, b in ((n, n), (n, q), (p, n), (p, q)))


def make(M):
    cols = (len(M[0]), len(M[3][0]) if M[3] else 0) * 2
    return dSS(*[o.npmat(x, c) for x, c in zip(M, cols)])


def integers(rng, M):
    X, Y = zip(*[o.rand_ints(rng, (len(x), len(x[0]) if x else c)) for x, c in zip(M, (len(M[0]), len(M[3][0])) * 2)])
    return X, dSS(*[y if rng.random() < 0.5 else numpy.array(y) for y in Y])


def vals(S):
    return tuple(o.fmat(x) for x in (S.A, S.B, S.C, S.D))


def resp(M, N):
    return o.impulse(*M, N)


def hsum(a, b, s=1):
    return [o.add(x, o.scale(y, F(s))) for x, y in zip(a, b)]


def hprod(a, b):
    """impulse response of a after b"""
    N = len(a)
    return [__import__('functools').reduce(o.add, [o.mul(a[j], b[k - j]) for j in range(k + 1)]) for k in range(N)]


def consistent(m, S, n, p, q, what):
    m.ok('sizes', (S.n, S.p, S.q) == (n, p, q) == S.size and S.A.shape == (n, n) and S.B.shape == (n, q) and S.C.shape == (p, n) and S.D.shape == (p, q),
         '%s: wrong sizes' % what, got=S.size, expected=(n, p, q))


def nz(h):
    return any(x for M in h for r in M for x in r)


def binary(m, rng, i):
    op = '+-*'[i % 3]
    n1, p1, q1 = nstates(rng), rng.randint(1, 4), rng.randint(1, 4)
    M1 = rand_sys(rng, n1, p1, q1)
    n2 = rng.choice([n1, nstates(rng)])
    M2 = rand_sys(rng, n2, q1, rng.randint(1, 4)) if op == '*' else rand_sys(rng, n2, p1, q1)
    A, B = make(M1), make(M2)
    if rng.random() < 0.1 and (op != '*' or p1 == q1):
        M2, B = M1, A
    elif rng.random() < 0.25:
        # systems that share some of their matrices
        M2 = tuple(x if o.shape(x) == o.shape(y) and rng.random() < 0.6 else y for x, y in zip(M1, M2))
        B = make(M2)
    if rng.random() < 0.3 and A is not B:
        # signals and states of very different magnitudes
        e = [[0] + [rng.choice([0, rng.randint(-60, 40)]) for _ in range(3)] for _ in range(2)]
        if op != '*':
            e[1][3] = e[0][3]
        M1, M2 = [tuple([[x * F(2) ** k for x in r] for r in X] for k, X in zip(f, M)) for f, M in zip(e, (M1, M2))]
        A, B = make(M1), make(M2)
    elif rng.random() < 0.12:
        # given by matrices of integers or booleans
        (M1, A), (M2, B) = [integers(rng, M) for M in (M1, M2)]
        m.seen('integers')
    N = n1 + n2 + 3
    h1, h2 = resp(M1, N), resp(M2, N)
    ref = hprod(h1, h2) if op == '*' else hsum(h1, h2, 1 if op == '+' else -1)
    m.case({'op': op, 'sizes': [A.size, B.size]}, nontrivial=nz(ref), key=(op, M1, M2))
    R = A + B if op == '+' else A - B if op == '-' else A * B
    consistent(m, R, A.n + B.n, p1, len(M2[3][0]) if op == '*' else q1, op)
    got = resp(vals(R), N)
    m.ok('impulse response', got == ref, 'the response of A %s B is not the one of the operation' % op, op=op,
         first=[k for k in range(N) if got[k] != ref[k]][:3])
    m.ok('operands untouched', vals(A) == M1 and vals(B) == M2, 'an operand was modified')


def expression(m, rng, i):
    """random expressions of 3-4 systems"""
    p = rng.randint(1, 3)
    Ms = [rand_sys(rng, nstates(rng, 3), p, p, bits=3) for _ in range(rng.randint(3, 4))]
    S = [make(M) for M in Ms]
    N = sum(len(M[0]) for M in Ms) + 2
    acc, h, txt = S[0], resp(Ms[0], N), 'S0'
    for k in range(1, len(S)):
        op = rng.choice('+-*')
        left = rng.random() < 0.5
        hk = resp(Ms[k], N)
        a, b, ha, hb = (acc, S[k], h, hk) if left else (S[k], acc, hk, h)
        acc = a + b if op == '+' else a - b if op == '-' else a * b
        h = hprod(ha, hb) if op == '*' else hsum(ha, hb, 1 if op == '+' else -1)
        txt = '(%s %s S%d)' % (txt, op, k) if left else '(S%d %s %s)' % (k, op, txt)
    m.case({'expr': txt, 'sizes': [s.size for s in S]}, nontrivial=nz(h), key=(txt, Ms))
    got = resp(vals(acc), N)
    mag = max([o.maxabs(x) for x in h] + [F(1)])
    m.ok('impulse response', all(o.close_mats(x, y, 1e-9, mag) for x, y in zip(got, h)), 'the response of %s is wrong' % txt)
    m.ok('operands untouched', all(vals(s) == M for s, M in zip(S, Ms)), 'an operand was modified')


def select(m, rng, i):
    n, p, q = nstates(rng), rng.choice([rng.randint(1, 5)] * 4 + [rng.randint(10, 13)]), rng.choice([rng.randint(1, 5)] * 4 + [rng.randint(10, 13)])
    M = rand_sys(rng, n, p, q)
    S = make(M)

    def pick(k):
        how = rng.randrange(5)
        if how == 0:
            j = rng.randrange(k)
            return j, [j]
        if how == 1:
            a = rng.randrange(k)
            b = rng.randint(a + 1, k)
            return slice(a, b), list(range(a, b))
        if how == 2:
            return slice(None), list(range(k))
        if how == 3:
            a = rng.randrange(k)
            return slice(a, None, 2), list(range(a, k, 2))
        # in any order
        l = rng.sample(range(k), rng.randint(1, k))
        return l, l
    (ko, lo), (ki, li) = pick(p), pick(q)
    N = n + 3
    ref = [[[M_[r][c] for c in li] for r in lo] for M_ in resp(M, N)]
    m.case({'select': [str(ko), str(ki)], 'size': S.size}, nontrivial=nz(ref), key=(str(ko), str(ki), M))
    R = S[ko, ki]
    consistent(m, R, n, len(lo), len(li), 'selection')
    m.ok('impulse response', resp(vals(R), N) == ref, 'the response of S[%s,%s] is not the one of the selected inputs/outputs' % (ko, ki))
    m.ok('operands untouched', vals(S) == M, 'the system was modified')


def unimodular(rng, n, k=4):
    T = o.eye(n)
    for _ in range(k if n > 1 else 0):
        a, b = rng.sample(range(n), 2)
        c = F(rng.choice([1, -1, 2, F(1, 2)]))
        T[a] = [x + c * y for x, y in zip(T[a], T[b])]
    for a in range(n):
        c = F(2) ** rng.randint(-1, 1)
        T[a] = [x * c for x in T[a]]
    return T


def similarity(m, rng, i):
    n, p, q = nstates(rng), rng.randint(1, 3), rng.randint(1, 3)
    M = rand_sys(rng, n, p, q)
    M = (o.rand_stable(rng, n, 6),) + M[1:]
    S = make(M)
    N = n + 4
    ref = resp(M, N)
    mats, T = [], o.eye(n)
    for _ in range(rng.randint(1, 3)):
        Tk = unimodular(rng, n, 3)
        mats.append(Tk)
        T = o.mul(T, Tk)
    m.case({'similarity': len(mats), 'size': S.size, 'T0': o.sbm(mats[0])}, nontrivial=n > 1 and nz(ref), key=(M, mats))
    # (the units of the new states)
    U = [F(2) ** (rng.randint(-50, 50) if len(mats) == 1 and rng.random() < 0.3 else 0) for _ in range(n)]
    mats[-1] = [[x * u for x, u in zip(r, U)] for r in mats[-1]]
    Ts = [o.npmat(x, n) for x in mats]
    for t in Ts:
        S.similarity(t)
    got = vals(S)
    got = ([[x * U[a] / U[b] for b, x in enumerate(r)] for a, r in enumerate(got[0])], [[x * u for x in r] for r, u in zip(got[1], U)], [[x / u for x, u in zip(r, U)] for r in got[2]], got[3])
    Ti = o.inv(T)
    exp = (o.mul(o.mul(Ti, M[0]), T), o.mul(Ti, M[1]), o.mul(M[2], T, n, n), M[3])
    scl = 1 + o.maxabs(T) * o.maxabs(Ti) * (1 + max(o.maxabs(x) for x in M)) * n * n
    m.ok('change of basis', all(o.close_mats(a, b, 1e-11, scl) for a, b in zip(got, exp)), 'the matrices are not (T^-1 A T, T^-1 B, C T, D)',
         got=[o.sbm(x) for x in got], expected=[o.sbm(x) for x in exp])
    scl2 = (1 + max(o.maxabs(x) for x in ref)) * scl
    m.ok('impulse response', all(o.close_mats(a, b, 1e-10, scl2) for a, b in zip(resp(got, N), ref)), 'a change of basis changed the response')
    m.ok('operands untouched', all(o.fmat(t) == x for t, x in zip(Ts, mats)), 'the matrix of the change of basis was modified')


def simplify(m, rng, i):
    """systems with null rows (of A only, of A and B, chains of them) and rank-deficient ones without null row"""
    n, p, q = rng.randint(1, 6), rng.randint(1, 3), rng.randint(1, 3)
    M = [list(map(list, x)) for x in rand_sys(rng, n, p, q)]
    dead = set()
    for k in rng.sample(range(n), rng.randint(1, max(1, n - 1))):
        M[0][k] = [F(0)] * n
        if rng.random() < 0.6:
            M[1][k] = [F(0)] * q
            dead.add(k)
    if dead and rng.random() < 0.5:
        # a state that depends on null states only becomes null as well
        k = rng.randrange(n)
        d = rng.choice(sorted(dead))
        if k not in dead:
            M[0][k] = [F(rng.randint(1, 4)) if j == d else F(0) for j in range(n)]
            M[1][k] = [F(0)] * q
    if rng.random() < 0.3:
        M[0][0] = list(M[0][-1])
    if rng.random() < 0.1:
        # nothing but useless states
        M[0], M[1] = o.zeros(n, n), o.zeros(n, q)
        dead = set(range(n))
    S = make(M)
    N = n + 4
    ref = resp(M, N)
    m.case({'simplify': S.size, 'null states': len(dead), 'A': o.sbm(M[0]), 'B': o.sbm(M[1])}, nontrivial=bool(dead) and nz(ref), key=M)
    R = S.simplify()
    m.ok('sizes', (R.p, R.q) == (p, q) and R.n <= n, 'the simplification changed the inputs/outputs or added states', got=R.size)
    m.ok('impulse response', resp(vals(R), N) == ref, 'the simplification changed the response', got=[o.sbm(x) for x in vals(R)])
    m.ok('operands untouched', vals(S) == tuple(M), 'the system was modified')


def refusals(m, rng, i):
    n1, p1, q1 = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
    p2, q2 = rng.randint(1, 4), rng.randint(1, 4)
    A, B = make(rand_sys(rng, n1, p1, q1)), make(rand_sys(rng, None, p2, q2))
    m.case({'refused': 'operation', 'sizes': [A.size, B.size]})
    if (p1, q1) != (p2, q2):
        m.raises('refusals', ValueError, lambda: A + B, 'sum of systems of different sizes')
        m.raises('refusals', ValueError, lambda: A - B, 'difference of systems of different sizes')
    if q1 != p2:
        m.raises('refusals', ValueError, lambda: A * B, 'series of incompatible systems')
    # constructor
    M = [list(map(list, x)) for x in rand_sys(rng, n1, p1, q1)]
    k = rng.randrange(8)
    if k % 2 == 0:
        M[k // 2] = M[k // 2] + [[F(1)] * len(M[k // 2][0])]
    else:
        M[k // 2] = [r + [F(1)] for r in M[k // 2]]
    if k == 2 or k == 5 or k in (0, 1) or k in (6, 7):
        pass
    shapes = [o.shape(x) for x in M]
    ok = shapes[0][0] == shapes[0][1] == shapes[1][0] == shapes[2][1] and shapes[3] == (shapes[2][0], shapes[1][1])
    if not ok:
        m.raises('refusals', ValueError, lambda: make(M), 'inconsistent matrices %s' % shapes)


WORKLOADS = [Workload('binary', binary, 600, 9000), Workload('expression', expression, 150, 2500), Workload('select', select, 300, 5000),
             Workload('similarity', similarity, 200, 3000), Workload('simplify', simplify, 250, 4000), Workload('refusals', refusals, 300, 3000)]
EXPECT = {'impulse response': 1000, 'change of basis': 150, 'refusals': 500, 'operands untouched': 1000}
