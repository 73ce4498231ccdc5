# coding: utf-8
"""C23: exactness of the coefficients, operation counts and displays of the coefficient matrix"""
import copy
import re
from fractions import Fraction as F
import numpy
from rv import oracle as o
from rv.core import Workload
from rv.sif import NAMES, shapes, rand_mats, npmats, zmat
from fixif.SIF import SIF, Realization
from fixif.SIF.SIF import isTrivial

PROPERTY = 'C23'
RULE = ('scalars around (plus or minus) powers of two from 2^-1000 to 2^1000, at relative distances 0, threshold*(1-d), threshold*(1+d), thresholds 1e-12 to 0.25; realizations of sizes 0..5 x 1..4 with coefficients null, 1, -1, powers of two, '
        'close to a power of two, integers and others, with or without exactness flags of the user, driven by histories of 3..12 writes of the coefficient matrices, the flags, Z and quantizations; after each step the flags, the counts and both '
        'displays are parsed and compared position by position with a shadow copy; non-trivial when at least three classes of coefficients are present')
ASSUMPTIONS = ['finite coefficients', 'no coefficient of an object is closer than 1e-10 (relative) to the triviality threshold', 'the coefficient matrices are replaced by their setters, not modified in place']
EXPECT = {'threshold': 3000, 'exactness': 2000, 'flags of the user': 300, 'multiplications': 1000, 'additions': 1000, 'TikZ': 1000, 'LaTeX': 1000, 'upper': 300}
EPS = 1e-8


def nearest(x):
    """exact smallest relative distance of |x| to a power of two"""
    x = abs(o.frac(x))
    e = x.numerator.bit_length() - x.denominator.bit_length()
    return min(abs(x / F(2) ** p - 1) for p in range(e - 2, e + 3))


def trivial(x, eps=F(EPS)):
    return x == 0 or nearest(x) < eps


def threshold(m, rng, i):
    """the threshold of isTrivial is the documented one"""
    for _ in range(20):
        p = rng.choice([rng.randint(-4, 4), rng.randint(-60, 60), rng.randint(-1000, 1000)])
        eps = rng.choice([1e-12, EPS, EPS, 1e-6, 1e-3, 0.01, 0.1, 0.25, rng.uniform(0.001, 0.25), 10 ** rng.uniform(-11, -1)])
        d = rng.choice([0, 0.5, 0.9, 0.999, 1.001, 1.1, 2, 10, rng.uniform(0.7, 1.5)])
        kind = rng.choice(['around', 'around', 'any', 'zero'])
        if kind == 'around':
            x = float(F(2) ** p * (1 + rng.choice([-1, 1]) * F(eps) * F(d)))
        elif kind == 'any':
            x = rng.uniform(0.5, 2) * 2.0 ** (p // 2)
        else:
            x = rng.choice([0.0, -0.0, 0])
        x = rng.choice([1, -1]) * x
        # (x computed in double: away from the threshold by more than the errors of a logarithm)
        far = F(2) ** -52 * (abs(p) + 8) * 8
        if x and abs(nearest(x) - F(eps)) < far + F(eps) / 10 ** 9:
            m.note('too close to the threshold')
            continue
        t = rng.choice([float, float, numpy.float64])(x)
        m.case({'x': float(x), 'epsilon': eps, 'p': p}, key=(x, eps), nontrivial=x != 0)
        got = isTrivial(t, eps)
        m.ok('threshold', bool(got) == trivial(x, F(eps)), 'isTrivial(%r, %r) -> %r' % (x, eps, got), distance=float(nearest(x)) if x else 0)


def coef(rng):
    k = rng.randrange(13)
    s = rng.choice([1, -1])
    if k < 2:
        return F(0)
    if k < 4:
        return F(1)
    if k == 4:
        return F(-1)
    if k == 5:
        return s * F(2) ** rng.randint(-6, 6)
    if k == 6:
        # close to a power of two, on one side of the threshold
        return F(float(s * F(2) ** rng.randint(-5, 5) * (1 + rng.choice([1, -1]) * F(EPS) * rng.choice([F(1, 10), F(1, 2), F(9, 10), F(11, 10), F(3), F(50), F(10 ** 8, 2 ** 52), F(10 ** 8, 2 ** rng.randint(28, 52))]))))
    if k == 7:
        return F(rng.randint(-40, 40))
    if k == 9:
        # tiny or large
        return F(float(s * F(rng.choice([1, 3, 5, 7, 1]) * 2 ** 20 + rng.choice([0, 0, 1]), 2 ** 20) * F(2) ** rng.choice([rng.randint(-90, 60), rng.randint(-35, -10), rng.choice([-1, -1, 1]) * rng.randint(40, 150)])))
    if k == 8:
        return F(rng.uniform(-4, 4))
    return o.dyadic(rng, 5, -3, 2)


def values(rng, size):
    l = size[0]
    M = [[[coef(rng) for _ in range(b)] for _ in range(a)] for a, b in shapes(*size)]
    for a in range(l):
        for b in range(l):
            if b >= a:
                M[0][a][b] = F(1 if a == b else 0)
            elif M[0][a][b] and not F(1, 2 ** 100) < abs(M[0][a][b]) < 2 ** 12:
                # (J is inverted)
                M[0][a][b] = F(rng.choice([1, -3]), 2 ** rng.randint(0, 60))
    if rng.random() < 0.3:
        # lines without coefficient
        for X in rng.sample(range(1, 9), rng.randint(1, 8)):
            for r in M[X]:
                if rng.random() < 0.6:
                    r[:] = [F(0)] * len(r)
    return M


TIKZ = {'\\node [one] {};': 'one', '\\node [minusone] {};': 'minusone', '': 'zero', '\\node [power2] {};': 'power2', '\\node [coef] {};': 'coef'}


def judge(m, rng, R, Z, D, size, **kw):
    """Z, D: expected coefficients and flags"""
    l, n, p, q = size
    m.ok('exactness', R.dZ.shape == (l + n + p, l + n + q), 'wrong shape of dZ', got=R.dZ.shape, **kw)
    m.need('coefficients', o.fmat(R.Z) == Z, 'the coefficients are not those written', got=R.Z, **kw)
    got = o.fmat(R.dZ)
    bad = [(i, j, float(Z[i][j]), float(got[i][j]), float(D[i][j])) for i in range(len(Z)) for j in range(len(Z[0])) if got[i][j] != D[i][j]]
    m.ok('exactness', not bad, 'wrong exactness flags (line, column, coefficient, flag, expected)', got=bad[:6], **kw)
    for k, (r, c) in zip('JKLMNPQRS', [(0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2)]):
        rows, cols = [(0, l), (l, l + n), (l + n, l + n + p)][r], [(0, l), (l, l + n), (l + n, l + n + q)][c]
        m.ok('exactness', [x[:] for x in o.fmat(getattr(R, 'd' + k))] == [x[cols[0]:cols[1]] for x in D[rows[0]:rows[1]]], 'd%s is not its part of dZ' % k, **kw)
    # operations
    mult, add = R.nbOp()
    m.ok('multiplications', mult == sum(1 for r in D for d in r if d), 'wrong number of multiplications', got=int(mult), **kw)
    terms = [sum(1 for v in r if v) - (1 if i < l else 0) for i, r in enumerate(Z)]
    m.ok('additions', add == sum(max(t - 1, 0) for t in terms), 'wrong number of additions', got=int(add), terms=terms, **kw)
    P = [r[l:l + n] for r in Z[l:l + n]]
    m.ok('upper', bool(R.isPnut()) == any(P[i][j] for i in range(n) for j in range(i)), 'isPnut', **kw)
    # TikZ
    s = R.getTiKZSparseMatrix()
    body = s[s.index(']{\n', s.index('\\matrix')) + 3:s.rindex('};\n\\end{tikzpicture}')]
    lines = [x.strip() for x in body.split('\\\\\n')]
    m.ok('TikZ', lines[-1] == '' and len(lines) == l + n + p + 1, 'wrong number of lines', got=len(lines), **kw)
    for i, line in enumerate(lines[:-1]):
        cells = [TIKZ.get(c.strip(), c) for c in line.split('&')]
        exp = ['one' if v == 1 else 'minusone' if v == -1 else 'zero' if not v else 'coef' if D[i][j] else 'power2' for j, v in enumerate(Z[i])]
        m.ok('TikZ', cells == exp, 'line %d of the TikZ matrix' % i, got=cells, expected=exp, **kw)
    # LaTeX
    sparse = rng.random() < 0.6
    digits = rng.choice([4, 4, 8, 17])
    fmt = '%%.%dg' % digits
    kwargs = {}
    if digits != 4 or rng.random() < 0.5:
        kwargs['strFormat'] = fmt
    if not sparse or rng.random() < 0.5:
        kwargs['sparse'] = sparse
    s = R.getZtpmatrixLaTeX(**kwargs)
    h = re.match(r'\s*\\begin\{tpmatrix\}\[\{\\mvline\[dashed\]\{(\d+)\}\\mvline\[dashed\]\{(\d+)\}\\mhline\[dashed\]\{(\d+)\}\\mhline\[dashed\]\{(\d+)\}\}\]\{\}\n(.*)\\end\{tpmatrix\}\s*$', s, re.S)
    m.need('LaTeX', h, 'unreadable tpmatrix', got=s, **kw)
    first = max(l, 1)
    m.ok('LaTeX', [int(h.group(k)) for k in range(1, 5)] == [first, first + n] * 2, 'wrong separations of the matrix', got=h.groups()[:4], **kw)
    rows = [r.strip() for r in h.group(5).split('\\\\\n')]
    rows = [[c.strip() for c in r.split('\\&')] for r in rows]
    m.ok('LaTeX', len(rows) == first + n + p and all(len(r) == first + n + q for r in rows), 'wrong sizes of the displayed matrix', got=[len(r) for r in rows], **kw)
    if not l:
        m.ok('LaTeX', not any(rows[0]) and not any(r[0] for r in rows), 'coefficients in the line and column without variable', **kw)
        rows = [r[1:] for r in rows[1:]]
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            v = Z[i][j]
            if v == 0:
                good = c == '' if sparse else c == '0'
            elif v.denominator == 1:
                good = c == str(v)
            else:
                good = c == fmt % float(v)
            m.ok('LaTeX', good, 'coefficient (%d, %d) of the display' % (i, j), got=c, value=float(v), sparse=sparse, **kw)


def flat(mats, size, J=True):
    Z = zmat(mats, size)
    if not J:
        for a in range(size[0]):
            for b in range(size[0]):
                Z[a][b] = -Z[a][b]
    return Z


def auto(Z):
    return [[F(int(not trivial(v))) for v in r] for r in Z]


def classes(Z):
    return len({'0' if v == 0 else '1' if v == 1 else '-1' if v == -1 else '2' if trivial(v) else 'i' if v.denominator == 1 else 'x' for r in Z for v in r})


def histories(m, rng, i):
    size = (rng.choice([0, 0, 1, 2, 3, 5]), 0 if rng.random() < 0.05 else rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3))
    sh = shapes(*size)
    mats = values(rng, size)
    user = rng.random() < 0.35
    # (the flags may be weights)
    flag = (lambda: F(rng.randint(0, 1))) if rng.random() < 0.6 else (lambda: rng.choice([F(0), F(1, 4), F(1, 2), F(1), F(3, 2), F(2)]))
    flags = [[[flag() for _ in range(b)] for _ in range(a)] for a, b in sh] if user else None
    weights = user
    make = (lambda *a, **k: SIF(*a, **k)) if rng.random() < 0.5 else (lambda *a, **k: Realization(None, *a, **k))
    npf = lambda fl: tuple(o.npmat(x, s[1]) for x, s in zip(fl, sh))
    m.case({'size': size, 'J..S': mats, 'dJ..dS': flags}, key=(size, mats, flags), nontrivial=classes(zmat(mats, size)) >= 3)
    R = make(npmats(mats, size), dJtodS=npf(flags)) if user else make(npmats(mats, size))
    steps = []

    def check(X, mats, flags):
        Z = zmat(mats, size)
        judge(m, rng, X, Z, flat(flags, size, J=False) if flags is not None else auto(Z), size, steps=list(steps))
        if flags is not None:
            m.seen('flags of the user')
    check(R, mats, flags)
    for _ in range(rng.randint(3, 12)):
        op = rng.choice(['matrix'] * 5 + ['Z'] + (['flags'] if user or rng.random() < 0.3 else []) + (['dZ'] if rng.random() < 0.3 else []) + (['quantize'] if isinstance(R, Realization) else []) + ['copy'])
        new = values(rng, size)
        steps.append(op)
        if op == 'matrix':
            k = rng.randrange(9)
            steps[-1] = NAMES[k]
            if not o.npmat(mats[k], sh[k][1]).size:
                continue
            mats = mats[:k] + [new[k]] + mats[k + 1:]
            setattr(R, NAMES[k], o.npmat(new[k], sh[k][1]))
        elif op == 'Z':
            mats = new
            R.Z = o.npmat(zmat(new, size))
        elif op == 'flags':
            k = rng.randrange(9)
            steps[-1] = 'd' + NAMES[k]
            if not o.npmat(mats[k], sh[k][1]).size:
                continue
            f = [[flag() if weights else F(rng.randint(0, 1)) for _ in range(sh[k][1])] for _ in range(sh[k][0])]
            if flags is None:
                # the other ones are then those of the current coefficients
                user = True
                flags = [[[F(int(not trivial(v))) for v in r] for r in M] for M in mats]
            flags = flags[:k] + [f] + flags[k + 1:]
            setattr(R, 'd' + NAMES[k], o.npmat(f, sh[k][1]))
        elif op == 'dZ':
            user = True
            flags, weights = [[[flag() for _ in range(b)] for _ in range(a)] for a, b in sh], True
            v = o.npmat(flat(flags, size, J=False))
            R.dZ = rng.choice([v, v.tolist(), numpy.array(v)]) if rng.random() < 0.5 else v
            if rng.random() < 0.5:
                v[:] = 7        # (what is done with the given matrix does not matter)
        elif op == 'copy':
            # (the copy is another object)
            C = copy.deepcopy(R)
            C.S = o.npmat(new[8], sh[8][1])
            check(C, mats[:8] + [new[8]], flags)
        else:
            Q = R.quantize(rng.randint(3, 12))
            Z = o.fmat(Q.Z)
            m.ok('exactness', o.fmat(Q.dZ) == (flat(flags, size, J=False) if user else auto(Z)) if user or all(not v or abs(nearest(v) - F(EPS)) > F(1, 10 ** 10) for r in Z for v in r) else True,
                 'wrong exactness flags after a quantization', steps=list(steps), got=Q.dZ)
        check(R, mats, flags)


WORKLOADS = [Workload('threshold', threshold, 600, 4000), Workload('histories', histories, 200, 1500)]
