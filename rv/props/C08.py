# coding: utf-8
"""C08: algebra of transfer functions"""
from fractions import Fraction as F
import numpy
from rv import oracle as o
from rv.core import Workload
from fixif.LTI import dTF, dSS

PROPERTY = 'C08'
RULE = ('random transfer functions of orders 0..8 (numerator and denominator of different lengths, delays, leading/trailing zeros, denominators not '
        'normalised), combined by +, -, *, unary - with each other and with numbers on both sides, alone and in random expressions; the fractions are '
        'compared exactly by cross-multiplication when the double computations are exact, within their rounding otherwise; non-trivial when both orders are positive')
ASSUMPTIONS = ['finite coefficients', 'the reference is the convolution of the coefficients of increasing powers of 1/z']


def poly(rng, n, lead=None, bits=5):
    p = [o.dyadic(rng, bits, -2, 2, 0.2) for _ in range(n)]
    if lead is not None:
        p[0] = lead
    return p


def tf(rng, exact=True):
    a, b = rng.randint(1, 6), rng.randint(1, 6)
    if rng.random() < 0.06:
        a, b = rng.randint(7, 22), rng.randint(7, 22)
    if rng.random() < 0.5:
        b = a
    if exact:
        lead = F(rng.choice([1, 1, 1, 2, -1, F(1, 2), -4]))
        num, den = poly(rng, b), poly(rng, a, lead)
    else:
        num = [F(rng.uniform(-4, 4)) for _ in range(b + 2)]
        den = [F(rng.choice([1, rng.uniform(0.1, 5), -rng.uniform(0.1, 5)]))] + [F(rng.uniform(-4, 4)) for _ in range(a + 1)]
    if rng.random() < 0.3:
        num[0] = F(0)
        if len(num) > 1 and rng.random() < 0.4:
            num[1] = F(0)
    if rng.random() < 0.2:
        num[-1] = F(0)
        den[-1] = F(0) if len(den) > 1 else den[-1]
    if not exact and rng.random() < 0.3:
        # coefficients of very different magnitudes, leading coefficient close to 1
        k = rng.randrange(4)
        if k == 0:
            num = [x * F(2) ** rng.randint(-60, 40) for x in num]
            den = [x * F(2) ** rng.randint(-40, 20) for x in den]
        elif k == 1:
            num = [x * F(2) ** rng.choice([-80, -55, 50]) for x in num]
        elif k == 2:
            for v in (num, den):
                if len(v) > 1:
                    v[-1] = F(rng.choice([1, -1])) * F(2) ** -rng.randint(20, 60)
        else:
            den[0] = 1 + F(rng.choice([1, -1])) * F(2) ** -rng.randint(10, 45)
            num = [F(float(x)) for x in num]
    return num, den


def arg(rng, p):
    v = [o.todouble(x) for x in p]
    r = rng.random()
    if r < 0.3:
        return v
    if r < 0.6:
        return numpy.array(v)
    if r < 0.8 and all(x == int(x) for x in v):
        return [int(x) for x in v]
    return numpy.matrix(v)


def make(rng, t):
    return dTF(arg(rng, t[0]), arg(rng, t[1]))


def vals(T):
    return [o.frac(x) for x in numpy.asarray(T.num).ravel()], [o.frac(x) for x in numpy.asarray(T.den).ravel()]


def norm(t):
    n, d = t
    k = max(len(n), len(d))
    n, d = list(n) + [F(0)] * (k - len(n)), list(d) + [F(0)] * (k - len(d))
    return [x / d[0] for x in n], [x / d[0] for x in d]


def apply(op, a, b):
    (n1, d1), (n2, d2) = a, b
    if op == '*':
        return o.pmul(n1, n2), o.pmul(d1, d2)
    n2 = n2 if op == '+' else [-x for x in n2]
    return o.padd(o.pmul(n1, d2), o.pmul(d1, n2)), o.pmul(d1, d2)


def wellformed(m, T):
    n, d = T.num, T.den
    m.ok('normalised', n.shape == d.shape and n.shape[0] == 1 and n.shape[1] == T.order + 1 and d[0, 0] == 1, 'num/den are not normalised rows of order+1 coefficients',
         num=n, den=d, order=T.order)


def construct(m, rng, i):
    exact = rng.random() < 0.7
    t = tf(rng, exact)
    T = make(rng, t)
    ref = norm(t)
    m.case({'construct': [[float(x) for x in t[0]], [float(x) for x in t[1]]]}, nontrivial=len(t[0]) > 1 and len(t[1]) > 1)
    wellformed(m, T)
    n, d = vals(T)
    tol = 0 if exact else 2 ** -51
    m.ok('coefficients', T.order == len(ref[0]) - 1 and len(n) == len(ref[0]) and all(o.close(x, y, tol) for x, y in zip(n + d, ref[0] + ref[1])),
         'the coefficients are not those given, normalised', num=n, den=d, expected=ref)
    N = -T
    wellformed(m, N)
    m.ok('coefficients', vals(N) == ([-x for x in n], d), '-H is not the opposite', got=vals(N))


def close_fraction(op, va, vb, ref, got):
    """cross-multiplied, within the rounding of the sums of products"""
    mag = apply('+' if op == '-' else op, *[([abs(x) for x in v[0]], [abs(x) for x in v[1]]) for v in (va, vb)])
    diff = o.padd(o.pmul(got[0], ref[1]), [-x for x in o.pmul(ref[0], got[1])])
    top = o.padd(o.pmul(mag[0], [abs(x) for x in got[1]]), o.pmul([abs(x) for x in got[0]], mag[1]))
    top = o.padd(top, o.pmul(mag[0], mag[1]))
    n = max(len(v) for v in va + vb)
    return all(abs(x) <= F(4 * n + 8, 2 ** 53) * y for x, y in zip(diff, top))


def binary(m, rng, i):
    op = '+-*'[i % 3]
    exact = rng.random() < 0.75
    a, b = tf(rng, exact), tf(rng, exact)
    rel = rng.random()
    if rel < 0.1:
        b = (b[0], a[1])
    elif rel < 0.2:
        # operands that are nearly the same
        es = [20, 26, 30, 40, 44, 46, 47, 48]
        es = [rng.choice(es)] if rng.random() < 0.6 else es
        tiny = lambda x: x + F(rng.randint(-3, 3), 2 ** rng.choice(es))
        near = lambda p, lead: [x if rng.random() < 0.4 or (k == 0 and lead) else tiny(x) for k, x in enumerate(p)]
        b = (near(a[0], False) if rng.random() < 0.6 else b[0], near(a[1], True))
        exact = False
    elif rel < 0.25:
        # common factors, poles cancelled by the zeros of the other one
        b = (list(a[1]), list(a[0])) if a[0][0] and rng.random() < 0.5 else (o.pmul(b[0], a[1]), b[1])
        exact = False
    A, B = make(rng, a), make(rng, b)
    va, vb = vals(A), vals(B)
    if rng.random() < 0.08:
        B, b, vb = A, a, va
    R = A + B if op == '+' else A - B if op == '-' else A * B
    if rng.random() < 0.1:
        # (the reflected operation gives the same)
        R = B.__radd__(A) if op == '+' else B.__rsub__(A) if op == '-' else B.__rmul__(A)
    m.case({'op': op, 'A': [[float(x) for x in y] for y in a], 'B': [[float(x) for x in y] for y in b]}, nontrivial=A.order > 0 and B.order > 0)
    wellformed(m, R)
    ref = apply(op, va, vb)
    got = vals(R)
    if exact:
        m.ok('fraction', o.same_tf(got[0], got[1], ref[0], ref[1]), 'A %s B is not the operation on the fractions' % op, got=got, expected=ref)
    else:
        m.ok('fraction', close_fraction(op, va, vb, ref, got), 'A %s B is not the operation on the fractions' % op, got=got, expected=ref)
    m.ok('operands untouched', vals(A) == va and vals(B) == vb, 'an operand was modified')


def scalar(m, rng, i):
    a = tf(rng)
    A = make(rng, a)
    va = vals(A)
    c = rng.choice([0, 1, -1, 3, -7, 0.5, -2.25, 1.0, 0.0])
    easy = rng.random() < 0.6
    if not easy:
        # (rounded sums: large, tiny, or general numbers, and numbers that nearly cancel the first coefficient)
        c = rng.choice([0.1, rng.uniform(-3, 3), 2 ** 31, 10 ** 9 + 7, -2 ** 53 - 2, 1e-12, -3.7e-9, 2.0 ** -40, 1e15, 2.0 ** 70, float(va[0][0]), float(-va[0][0]) * (1 + 2.0 ** -30), float(va[0][-1])])
    C = ([F(c)], [F(1)])
    m.case({'scalar': c, 'A': [[float(x) for x in y] for y in a]}, nontrivial=A.order > 0 and c != 0)
    for op, txt, f, ref in (('+', 'A + c', lambda: A + c, apply('+', va, C)), ('+', 'c + A', lambda: c + A, apply('+', va, C)), ('-', 'A - c', lambda: A - c, apply('-', va, C)),
                        ('-', 'c - A', lambda: c - A, apply('-', C, va)), ('*', 'A * c', lambda: A * c, apply('*', va, C)), ('*', 'c * A', lambda: c * A, apply('*', va, C))):
        R = f()
        wellformed(m, R)
        got = vals(R)
        m.ok('fraction', o.same_tf(got[0], got[1], ref[0], ref[1]) if easy else close_fraction(op, va, C, ref, got), '%s is not the operation on the fraction' % txt, got=got, expected=ref)
    m.ok('operands untouched', vals(A) == va, 'an operand was modified')


def expression(m, rng, i):
    T = [tf(rng) for _ in range(3)]
    T = [(n[:3], d[:3]) for n, d in T]
    S = [make(rng, t) for t in T]
    V = [vals(s) for s in S]
    acc, ref, txt = S[0], V[0], 'A'
    for k in (1, 2):
        op = rng.choice('+-*')
        if rng.random() < 0.5:
            acc = acc + S[k] if op == '+' else acc - S[k] if op == '-' else acc * S[k]
            ref = apply(op, ref, V[k])
            txt = '(%s %s %s)' % (txt, op, 'ABC'[k])
        else:
            acc = S[k] + acc if op == '+' else S[k] - acc if op == '-' else S[k] * acc
            ref = apply(op, V[k], ref)
            txt = '(%s %s %s)' % ('ABC'[k], op, txt)
        if rng.random() < 0.3:
            c = rng.choice([2, -1, 0.5])
            acc, ref, txt = c - acc, apply('-', ([F(c)], [F(1)]), ref), '(%s - %s)' % (c, txt)
    m.case({'expr': txt, 'T': [[[float(x) for x in y] for y in t] for t in T]})
    got = vals(acc)
    wellformed(m, acc)
    m.ok('fraction', o.same_tf(got[0], got[1], ref[0], ref[1], F(1, 2 ** 40)), 'wrong fraction: %s' % txt, got=got, expected=ref)
    m.ok('operands untouched', all(vals(s) == v for s, v in zip(S, V)), 'an operand was modified')


def refusals(m, rng, i):
    a = tf(rng)
    A = make(rng, a)
    m.case({'refused': i, 'order': A.order})
    for bad in ('x', None, [1, 2], {}, dSS([[0.5]], [[1]], [[1]], [[0]]), 1j):
        n = type(bad).__name__
        m.raises('refusals', ValueError, lambda: A + bad, 'H + %s' % n)
        m.raises('refusals', ValueError, lambda: A - bad, 'H - %s' % n)
        m.raises('refusals', ValueError, lambda: A * bad, 'H * %s' % n)
        if not isinstance(bad, dSS):
            m.raises('refusals', ValueError, lambda: bad + A, '%s + H' % n)
            m.raises('refusals', ValueError, lambda: bad - A, '%s - H' % n)
            m.raises('refusals', ValueError, lambda: bad * A, '%s * H' % n)
    num, den = [float(x) for x in a[0]], [float(x) for x in a[1]]
    m.raises('refusals', ValueError, lambda: dTF(num, [0.0] + den), 'null leading coefficient')
    m.raises('refusals', ValueError, lambda: dTF([num, num], den), 'numerator on two rows')
    m.raises('refusals', ValueError, lambda: dTF(num, [den, den]), 'denominator on two rows')


WORKLOADS = [Workload('construct', construct, 300, 5000), Workload('binary', binary, 700, 12000), Workload('scalar', scalar, 200, 3000),
             Workload('expression', expression, 300, 4000), Workload('refusals', refusals, 40, 300)]
EXPECT = {'fraction': 1500, 'normalised': 1500, 'coefficients': 500, 'operands untouched': 1000, 'refusals': 1000}
