# coding: utf-8
"""C09: the views (transfer function, state-space, filter) of a system agree"""
from fractions import Fraction as F
import numpy
from scipy.signal import lfilter
from rv import oracle as o
from rv.core import Workload
from rv.props.C06 import rand_sys
from fixif.LTI import dTF, dSS, Filter

PROPERTY = 'C09'
RULE = ('random SISO transfer functions (orders 0..7, unequal lengths, delays, trailing zeros, not normalised) and stable state-spaces (0..6 states, SISO '
        'and MIMO, nilpotent and repeated poles included), given to the filter in every possible way, whose views are asked for in random orders; '
        'every view is compared with the exact impulse response of what was given; non-trivial when at least two kinds of views are asked for')
ASSUMPTIONS = ['coefficients of at most 8 bits, moderate poles (conversions are compared within 1e-8 of the magnitude of the response)']


def rand_tf(rng):
    n = 0 if rng.random() < 0.06 else rng.randint(1, 7)
    nd = n if rng.random() < 0.6 else rng.randint(0, n)
    nn = n if nd < n or rng.random() < 0.6 else rng.randint(0, n)
    # stable denominator: sum of the moduli below 1 (times the lead)
    den = [F(1)] + [o.dyadic(rng, 6, -3, 0, 0.2) / max(1, nd) for _ in range(nd)]
    den = [F(1)] + [F(int(x * 1024), 1024) for x in den[1:]]
    num = [o.dyadic(rng, 6, -2, 2, 0.2) for _ in range(nn + 1)]
    if rng.random() < 0.3:
        num[0] = F(0)
    if not any(num):
        num[-1] = F(1)
    if rng.random() < 0.2:
        # some tiny coefficients
        for _ in range(rng.randint(1, 2)):
            num[rng.choice([0, rng.randrange(nn + 1)])] *= F(1, 2 ** rng.randint(10, 60))
    if n and rng.random() < 0.25:
        num, den = special(rng, num, den, n)
    k = F(rng.choice([1, 1, 1, 2, -4, F(1, 2)]))
    g = gain(rng)
    return [x * k * g for x in num], [x * k for x in den]


def special(rng, num, den, n):
    """remarkable filters of order n"""
    c = rng.choice([F(1), F(1, 2), F(-1, 4), F(3)])
    pad = den + [F(0)] * (n + 1 - len(den))
    r = rng.choice(['average', 'differences', 'palindrome', 'all-pass', 'constant', 'delay', 'comb', 'interpolated', 'equal', 'single pole', 'common root'])
    if r == 'average':
        num = [c] * (n + 1)
    elif r == 'differences':
        num = [c * (-1) ** k for k in range(n + 1)]
    elif r == 'palindrome':
        num = num + [F(0)] * (n + 1 - len(num))
        s = rng.choice([1, -1])
        num = [num[min(k, n - k)] * (s if k > n - k else 1) for k in range(n + 1)]
        num[0], num[n] = c, c * s
    elif r == 'all-pass':
        num, den = pad[::-1], pad
    elif r == 'constant':
        num, den = [c * x for x in pad], pad
    elif r == 'delay':
        num = [F(0)] * n + [c]
    elif r == 'comb':
        num = [c] + [F(0)] * (n - 1) + [rng.choice([c, -c, 2 * c])]
        den = [F(1)] + [F(0)] * (n - 1) + [rng.choice([F(1, 2), F(-1, 2), F(-7, 8)])]
    elif r == 'interpolated':
        num, den = [[x if k % 2 == 0 else F(0) for k, x in enumerate(v)] for v in (num, pad)]
        num = num + [F(0)] * (n + 1 - len(num))
        num[0] = num[0] or c
    elif r == 'equal':
        den = [F(1)] + [rng.choice([1, -1]) * F(1, 8)] * n
        num = den[1:] + [den[-1]] if rng.random() < 0.5 else [den[-1]] * (n + 1)
    elif r == 'single pole':
        den = [F(1)] + [F(0)] * n
        for _ in range(min(n, 3)):
            den = [F(1)] + [den[k] - F(1, 2) * den[k - 1] for k in range(1, n + 1)]
    else:
        # a pole on a zero
        num = [F(0), c, -c / 2] if n >= 2 else [c, -c / 2]
        den = [F(1), F(-3, 4), F(1, 8)] if n >= 2 else [F(1), F(-1, 2)]
        num, den = [v + [F(0)] * (n + 1 - len(v)) for v in (num, den)]
    return (num if any(num) else [c] * (n + 1)), den


def gain(rng):
    """some filters have a very small or very large gain"""
    return F(2) ** (rng.randint(-70, 45) if rng.random() < 0.15 else 0)


def fr(x):
    return [o.frac(v) for v in numpy.asarray(x).ravel()]


def same(h, ref, tol=1e-8):
    scl = max([abs(x) for x in ref] + [F(1, 2 ** 300)])
    return len(h) == len(ref) and all(abs(a - b) <= F(tol) * scl for a, b in zip(h, ref))


def entrywise(m, S, num, den, N, ref, what):
    """the samples of the canonical controllable form: those of the magnitudes give the scale of the rounding errors of each of them"""
    n = max(len(num), len(den)) - 1
    b, a = [[abs(x / den[0]) for x in v] + [F(0)] * (n + 1 - len(v)) for v in (num, den)]
    big = [b[0]]
    x = [F(0)] * n
    for k in range(N - 1):
        x = [(F(1) if k == 0 else F(0)) + sum((c * v for c, v in zip(a[1:], x)), F(0))] + x[:-1]
        big.append(sum(((c + d * b[0]) * v for c, d, v in zip(b[1:], a[1:], x)), F(0)))
    h = h_ss(S, N)
    m.ok('canonical form', all(abs(u - v) <= F(1e-13) * w for u, v, w in zip(h, ref, big)), what, got=[float(x) for x in h], expected=[float(x) for x in ref])


def h_ss(S, N):
    return [x[0][0] for x in o.impulse(*[o.fmat(y) for y in (S.A, S.B, S.C, S.D)], N)]


def h_tf(T, N):
    return o.tf_impulse(fr(T.num), fr(T.den), N)


def freq(m, T, num, den):
    """the scipy view of the transfer function"""
    t = T.toTransferFunction()
    for z in (1.3, -1.7, complex(0.3, 1.1), complex(-2, 0.5)):
        def ev(p):
            return sum(float(c) * z ** -k for k, c in enumerate(p))
        a = numpy.polyval(t.num, z) / numpy.polyval(t.den, z)
        b = ev(num) / ev(den)
        m.ok('scipy view', abs(a - b) <= 1e-9 * (sum(abs(float(c)) for c in num) * 4 / abs(ev(den)) + abs(b)), 'toTransferFunction has another frequency response', z=z, got=a, expected=b)


def tf_first(m, rng, i):
    num, den = rand_tf(rng)
    n = max(len(num), len(den)) - 1
    N = 2 * n + 6
    ref = o.tf_impulse(num, den, N)
    how = rng.choice(['num/den', 'tf', 'array'])
    v = ([o.todouble(x) for x in num], [o.todouble(x) for x in den])
    st = rng.choice([None, True, False])
    F_ = Filter(num=v[0], den=v[1], stable=st) if how == 'num/den' else Filter(tf=dTF(*v), stable=st) if how == 'tf' else Filter(num=numpy.array(v[0]), den=numpy.matrix(v[1]), stable=st)
    acts = [rng.choice(['dSS', 'dTF', 'ctrl', 'obs', 'back', 'mp', 'preds', 'scipy', 'wcpg', 'sollya']) for _ in range(rng.randint(3, 8))]
    m.case({'given': how, 'num': [float(x) for x in num], 'den': [float(x) for x in den], 'asked': acts}, nontrivial=len(set(acts)) > 1)
    for a in acts:
        if a == 'dSS':
            S = F_.dSS
            m.ok('state-space view', S.size == (n, 1, 1) and same(h_ss(S, N), ref), 'Filter.dSS is not the filter given', S=S)
            entrywise(m, S, num, den, N, ref, 'some samples of Filter.dSS are not those of the filter given')
        elif a == 'dTF':
            T = F_.dTF
            m.ok('transfer function view', T.order == n and same(h_tf(T, N), ref, 1e-13), 'Filter.dTF is not the filter given', num=T.num, den=T.den)
        elif a in ('ctrl', 'obs'):
            S = F_.dTF.to_dSS(a)
            m.ok('state-space view', S.size == (n, 1, 1) and same(h_ss(S, N), ref), 'to_dSS(%r) is not the transfer function' % a, S=S)
            if a == 'ctrl':
                entrywise(m, S, num, den, N, ref, 'some samples of to_dSS are not those of the transfer function')
        elif a == 'back':
            f = rng.choice(['ctrl', 'obs'])
            T = F_.dTF.to_dSS(f).to_dTF()
            m.ok('round trip', T.order == n and same(h_tf(T, N), ref), 'dTF -> dSS(%s) -> dTF is another transfer function' % f, num=T.num, den=T.den)
        elif a == 'mp':
            T = F_.dTF.to_dTFmp().to_dTF()
            m.ok('round trip', same(h_tf(T, N), ref, 1e-13), 'dTF -> dTFmp -> dTF is another transfer function')
            S = F_.dSS.to_dSSmp()
            m.ok('round trip', all(o.fmat(x) == o.fmat(y) for x, y in zip((S.A, S.B, S.C, S.D), (F_.dSS.A, F_.dSS.B, F_.dSS.C, F_.dSS.D))), 'dSS -> dSSmp is not exact')
        elif a == 'preds':
            m.ok('predicates', F_.order == n and (F_.p, F_.q) == (1, 1) and bool(F_.isSISO()) and bool(F_.isStable()) is bool(st) and not F_.isButter(), 'wrong predicates',
                 order=F_.order, p=F_.p, q=F_.q)
        elif a == 'sollya':
            for T in (F_.dTF, F_.dTF.to_dTFmp()):
                got = [o.sollya_poly(x) for x in T.to_Sollya()]
                exp = [o.trimmed([o.frac(x) for x in (v.A1 if isinstance(v, numpy.ndarray) else v)]) for v in (T.num, T.den)]
                m.ok('Sollya polynomials', got == exp, 'the polynomials for Sollya are not those of the transfer function', kind=type(T).__name__, got=got, expected=exp)
        elif a == 'wcpg':
            w1, w2 = float(F_.dTF.WCPG()), float(numpy.asarray(F_.dSS.WCPG())[0, 0])
            w = float(numpy.abs(lfilter([float(x / den[0]) for x in num], [float(x / den[0]) for x in den], numpy.eye(1, 5000)[0])).sum())
            m.ok('worst-case gain', abs(w1 - w) <= 1e-6 * w and abs(w1 - w2) <= 1e-7 * max(w1, w2), 'the worst-case gains of the views differ', tf=w1, ss=w2, partial=w) \
                if sum(abs(x) for x in den[1:]) < F(9, 10) * abs(den[0]) else m.note('slow decay')
        else:
            freq(m, F_.dTF, num, den)
    m.ok('predicates', F_.order == n and (F_.p, F_.q) == (1, 1) and bool(F_.isSISO()), 'wrong predicates after the views have been computed', order=F_.order)


def ss_first(m, rng, i):
    siso = rng.random() < 0.7
    n = 0 if rng.random() < 0.07 else rng.randint(1, 6)
    p, q = (1, 1) if siso else (rng.randint(1, 3), rng.randint(1, 3))
    siso = (p, q) == (1, 1)
    M = rand_sys(rng, n, p, q, bits=5)
    kind = rng.choice(['dense', 'dense', 'delay', 'repeated'])
    A = o.rand_stable(rng, n, 6)
    if kind == 'delay':
        A = [[F(int(c == r + 1)) for c in range(n)] for r in range(n)]
    elif kind == 'repeated':
        v = F(rng.randint(-12, 12), 16)
        A = [[v if c == r else (F(1) if c == r + 1 else F(0)) for c in range(n)] for r in range(n)]
    M = (A,) + M[1:]
    g, h = gain(rng), gain(rng)
    M = (M[0], [[x * g for x in r] for r in M[1]], [[x * h for x in r] for r in M[2]], [[x * g * h for x in r] for r in M[3]])
    N = 2 * n + 6
    ref = o.impulse(*M, N)
    np_ = [o.npmat(x, c) for x, c in zip(M, (n, q, n, q))]
    how = rng.choice(['ABCD', 'ss', 'lists'] if n else ['ABCD', 'ss'])
    st = rng.choice([None, True])
    F_ = Filter(A=np_[0], B=np_[1], C=np_[2], D=np_[3], stable=st) if how == 'ABCD' else Filter(ss=dSS(*np_), stable=st) if how == 'ss' else Filter(**dict(zip('ABCD', [x.tolist() for x in np_])), stable=st)
    acts = [rng.choice(['dSS', 'dTF', 'preds', 'again', 'mp']) for _ in range(rng.randint(3, 7))]
    m.case({'given': how, 'size': (n, p, q), 'kind': kind, 'A': o.sbm(A), 'asked': acts}, nontrivial=len(set(acts)) > 1, key=(M, acts, how))
    for a in acts:
        if a == 'dSS':
            S = F_.dSS
            m.ok('state-space view', S.size == (n, p, q) and o.impulse(*[o.fmat(y) for y in (S.A, S.B, S.C, S.D)], N) == ref, 'Filter.dSS is not the state-space given')
        elif a in ('dTF', 'again', 'mp') and not siso:
            m.raises('MIMO refused', ValueError, lambda: F_.dTF, 'transfer function of a MIMO filter')
            m.raises('MIMO refused', ValueError, lambda: F_.dSS.to_dTF(), 'transfer function of a MIMO state-space')
        elif a == 'dTF':
            T = F_.dTF
            m.ok('transfer function view', T.order == n and same(h_tf(T, N), [x[0][0] for x in ref]), 'the transfer function has another impulse response', num=T.num, den=T.den)
        elif a == 'again':
            f = rng.choice(['ctrl', 'obs'])
            S = F_.dTF.to_dSS(f)
            m.ok('round trip', same(h_ss(S, N), [x[0][0] for x in ref], 1e-7), 'dSS -> dTF -> dSS(%s) is another system' % f)
        elif a == 'mp':
            T = F_.dSS.to_dSSmp().to_dTFmp(rng.choice([64, 100])).to_dTF()
            m.ok('round trip', same(h_tf(T, N), [x[0][0] for x in ref]), 'dSS -> dSSmp -> dTFmp -> dTF is another system', num=T.num, den=T.den)
        else:
            m.ok('predicates', F_.order == n and (F_.p, F_.q) == (p, q) and bool(F_.isSISO()) is siso and bool(F_.isStable()) is bool(st), 'wrong predicates', order=F_.order, p=F_.p, q=F_.q)
    m.ok('predicates', F_.order == n and (F_.p, F_.q) == (p, q) and bool(F_.isSISO()) is siso, 'wrong predicates after the views have been computed')


def refusals(m, rng, i):
    m.case({'refused': i})
    m.raises('refusals', ValueError, lambda: Filter(), 'nothing given')
    m.raises('refusals', ValueError, lambda: Filter(num=[1, 2]), 'denominator missing')
    m.raises('refusals', ValueError, lambda: Filter(den=[1, 2]), 'numerator missing')
    m.raises('refusals', ValueError, lambda: Filter(A=[[1]], B=[[1]], C=[[1]]), 'D missing')
    m.raises('refusals', ValueError, lambda: Filter(A=[[1, 2]], B=[[1]], C=[[1]], D=[[1]]), 'A is not square')
    m.raises('refusals', ValueError, lambda: Filter(num=[1, 2], den=[0, 1]), 'null leading coefficient')
    m.raises('refusals', ValueError, lambda: dTF([1, 2], [1, .5]).to_dSS(rng.choice(['foo', '', None, 'control'])), 'unknown form')


WORKLOADS = [Workload('from transfer function', tf_first, 400, 6000), Workload('from state-space', ss_first, 300, 5000), Workload('refusals', refusals, 4, 4)]
EXPECT = {'Sollya polynomials': 200, 'state-space view': 300, 'canonical form': 200, 'transfer function view': 200, 'round trip': 300, 'predicates': 500, 'MIMO refused': 50, 'scipy view': 100, 'worst-case gain': 20}
