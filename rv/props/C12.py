# coding: utf-8
"""C12: the views of an implicit realization agree with its current coefficients"""
from fractions import Fraction as F
from copy import copy, deepcopy
import numpy
from rv import oracle as o
from rv.core import Workload
from rv.sif import Ref, NAMES, shapes, rand_mats, npmats, dss, zmat, make_stable, rand_units, rescale, graded
from fixif.SIF import SIF, Realization
from fixif.LTI import dSS

PROPERTY = 'C12'
RULE = ('random implicit realizations (0..4 intermediate variables, 0..4 states, 1..3 inputs and outputs, SIF and Realization objects, built from matrices, arrays, '
        'lists, integers or views of another object) driven by random histories of 4..14 writes (J..S, Z, dJ..dS, dZ) and queries; a shadow model holds the matrices '
        'last written and evaluates the implicit equations in rational arithmetic; non-trivial when a view is asked for, then a coefficient changed, then a view asked again')
ASSUMPTIONS = ['J is lower triangular with ones on its diagonal', 'coefficients of 4 bits: double computations are compared within 1e-9 of the sums of absolute values']


def rsize(rng):
    return rng.choice([0, 1, 1, 2, 2, 3, 4]), 0 if rng.random() < 0.06 else rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)


def forms(rng, M, shape):
    """one of the accepted kinds of matrices"""
    k = rng.randrange(5)
    A = o.npmat(M, shape[1])
    if k == 0:
        return A
    if k == 1:
        return numpy.array(A)
    if k == 2 and shape[0] and shape[1]:
        return A.tolist()
    if k == 3 and all(x.denominator == 1 and abs(x) < 2 ** 40 for r in M for x in r):
        return numpy.matrix(A, dtype=int)
    return numpy.matrix(numpy.asfortranarray(A))


def absinv(J):
    """bound of the terms of the inverse of J"""
    l = len(J)
    return o.inv([[(F(1) if i == j else -abs(J[i][j])) for j in range(l)] for i in range(l)])


class Shadow(object):
    def __init__(self, mats, size, units=None):
        self.d = dict(zip(NAMES, mats))
        self.size = size
        self.units = units or dict.fromkeys(NAMES, F(1))

    def mats(self):
        return [self.d[k] for k in NAMES]

    def ref(self):
        return Ref(self.mats(), self.size)

    def scale(self):
        """sums of absolute values of the state-space matrices"""
        l, n, p, q = self.size
        D = {k: o.absm(v) for k, v in self.d.items()}
        if not l:
            return [D['P'], D['Q'], D['R'], D['S']]
        Ji = absinv(self.d['J'])
        JM, JN = o.mul(Ji, D['M'], l, n), o.mul(Ji, D['N'], l, q)
        return [o.add(o.mul(D['K'], JM, l, n), D['P']), o.add(o.mul(D['K'], JN, l, q), D['Q']), o.add(o.mul(D['L'], JM, l, n), D['R']), o.add(o.mul(D['L'], JN, l, q), D['S'])]


def near(A, B, S, tol=1e-9, unit=1):
    s = unit + o.maxabs(S)
    return o.shape(A) == o.shape(B) and all(abs(A[i][j] - B[i][j]) <= F(tol) * s for i in range(len(A)) for j in range(len(A[0])))


def readback(m, R, sh, when):
    l, n, p, q = sh.size
    for k, (a, b) in zip(NAMES, shapes(*sh.size)):
        X = getattr(R, k)
        m.ok('coefficients', X.shape == (a, b) and o.fmat(X) == sh.d[k], '%s does not read back what was written (%s)' % (k, when), got=X, expected=sh.d[k])
    m.ok('coefficients', all(numpy.array_equal(x, getattr(R, k)) for k, x in zip(NAMES, R.JtoS)), 'JtoS is not (J, ..., S) (%s)' % when)
    m.ok('Z', R.Z.shape == (l + n + p, l + n + q) and o.fmat(R.Z) == zmat(sh.mats(), sh.size), 'Z is not the matrix of the coefficients (%s)' % when, Z=R.Z)
    m.ok('sizes', R.size == sh.size and (R.l, R.n, R.p, R.q) == sh.size, 'the sizes changed', size=R.size)


def q_dss(m, R, sh, rng, when):
    ABCD, S = dss(sh.mats(), sh.size), sh.scale()
    for k, X, E, s in zip(('AZ', 'BZ', 'CZ', 'DZ'), (R.AZ, R.BZ, R.CZ, R.DZ), ABCD, S):
        m.ok('state-space', near(o.fmat(X), E, s, unit=sh.units[dict(AZ='P', BZ='Q', CZ='R', DZ='S')[k]]), '%s is not that of the current coefficients (%s)' % (k, when), got=X, expected=o.sbm(E))
    d = R.dSS
    m.ok('state-space', isinstance(d, dSS) and all(numpy.array_equal(a, b) for a, b in zip((d.A, d.B, d.C, d.D), (R.AZ, R.BZ, R.CZ, R.DZ))), 'dSS is not (AZ,BZ,CZ,DZ) (%s)' % when)
    if sh.size[0]:
        l = sh.size[0]
        m.ok('inverse of J', near(o.fmat(R.invJ), o.inv(sh.d['J']), absinv(sh.d['J'])), 'invJ is not the inverse of J (%s)' % when)
        Zc = zmat(sh.mats(), sh.size)
        for i in range(l):
            Zc[i][i] = F(0)
        m.ok('Zcomp', o.fmat(R.Zcomp) == Zc, 'Zcomp is not Z without the diagonal of J (%s)' % when)


def q_exact(m, R, sh, rng, when):
    E = dss(sh.mats(), sh.size)
    X = R.to_dSSexact()
    m.ok('exact state-space', all(o.fmat(a) == b for a, b in zip((X.A, X.B, X.C, X.D), E)), 'to_dSSexact is not exactly the state-space of the current coefficients (%s)' % when,
         got=[o.sbm(o.fmat(a)) for a in (X.A, X.B, X.C, X.D)], expected=[o.sbm(b) for b in E])


def q_tf(m, R, sh, rng, when):
    if sh.size[2:] != (1, 1):
        m.raises('transfer function', ValueError, R.to_dTF, 'transfer function of a MIMO realization')
        return
    T = R.to_dTF()
    n = sh.size[1]
    E = dss(sh.mats(), sh.size)
    num, den = o.ss2tf(*E)
    a, b = [o.fmat(x)[0] for x in (T.num, T.den)]
    g = sh.units['S']
    cond = (1 + max(o.maxabs(x) / sh.units[k] for k, x in zip('PQRS', sh.scale()))) ** (n + 2)
    m.ok('transfer function', len(a) == len(b) == n + 1 and all(abs(x - y) <= F(1e-10) * cond * k for v, w, k in ((a, num, g), (b, den, 1)) for x, y in zip(v, w)), 'to_dTF is not the transfer function of the current coefficients (%s)' % when,
         got=T, num=[float(x) for x in num], den=[float(x) for x in den])


def q_sim(m, R, sh, rng, when):
    l, n, p, q = sh.size
    N = rng.randint(1, 8)
    u = [[o.dyadic(rng, 4, -1, 2) for _ in range(q)] for _ in range(N)]
    U = numpy.matrix([[o.todouble(u[k][j]) for k in range(N)] for j in range(q)])
    y = R.simulate(rng.choice([U, numpy.array(U), U.tolist()]))
    ref = [r[3] for r in sh.ref().run(u)]
    mag = sh.ref()
    big = [r[3] for r in absref(sh).run([[abs(x) for x in uk] for uk in u])]
    top = max(x for r in big for x in r)
    m.ok('simulation', y.shape == (p, N) and all(abs(o.frac(y[i, k]) - ref[k][i]) <= F(1e-9) * (big[k][i] + top) for i in range(p) for k in range(N)), 'simulate is not the evaluation of the current realization (%s)' % when,
         got=y, expected=[[float(v) for v in r] for r in ref])


def absref(sh):
    D = [o.absm(x) for x in sh.mats()]
    l = sh.size[0]
    D[0] = [[(F(1) if i == j else -D[0][i][j]) for j in range(l)] for i in range(l)]
    return Ref(D, sh.size)


def response(m, mon, S, ref, big, N, p, q, what, size=None):
    """within the rounding errors (the outputs or the inputs may be the variables t, x and y, in different units)"""
    l, n = size[:2] if size else (0, 0)
    grp = lambda i, k: 0 if k != l + n + size[2] else (i >= l) + (i >= l + n)
    if not size:
        grp = lambda i, k: 0
    top = {}
    for k in range(N):
        for i in range(p):
            for j in range(q):
                g = grp(i, p), grp(j, q)
                top[g] = max(top.get(g, 0), big[k][i][j])
    h = o.impulse(*[o.fmat(x) for x in (S.A, S.B, S.C, S.D)], N)
    m.ok(mon, o.shape(h[0]) == (p, q) and all(abs(h[k][i][j] - ref[k][i][j]) <= F(1e-9) * (big[k][i][j] + top[grp(i, p), grp(j, q)]) for k in range(N) for i in range(p) for j in range(q)), what,
         got=[o.sbm(x) for x in h[:3]], expected=[o.sbm(x) for x in ref[:3]])


def resp(ref, N, get, ninp, inputs):
    """list of N matrices: response of `get(step)` to an impulse on each of the `ninp` inputs"""
    cols = []
    for j in range(ninp):
        u, e = inputs(j, N)
        cols.append([get(s) for s in ref.run(u, err=e)])
    return [[[cols[j][k][i] for j in range(ninp)] for i in range(len(cols[0][k]))] for k in range(N)]


def inp_u(size):
    l, n, p, q = size

    def f(j, N):
        return [[F(int(i == j and k == 0)) for i in range(q)] for k in range(N)], None
    return f


def inp_e(size):
    l, n, p, q = size

    def f(j, N):
        v = [F(int(i == j)) for i in range(l + n + p)]
        z = [F(0)] * (l + n + p)
        cut = lambda w: (w[:l], w[l:l + n], w[l + n:])
        return [[F(0)] * q for _ in range(N)], [cut(v if k == 0 else z) for k in range(N)]
    return f


def q_derived(m, R, sh, rng, when):
    l, n, p, q = sh.size
    N = n + 3
    r, b = sh.ref(), absref(sh)
    which = rng.choice(['Hu', 'Hzeta', 'Hepsilon'])
    if which == 'Hu':
        get = lambda s: s[0] + s[2] + s[3]
        response(m, 'derived systems', R.Hu, resp(r, N, get, q, inp_u(sh.size)), resp(b, N, get, q, inp_u(sh.size)), N, l + n + p, q, 'Hu is not that of the current coefficients (%s)' % when, sh.size)
    elif which == 'Hzeta':
        get = lambda s: s[0] + s[1] + s[3]
        response(m, 'derived systems', R.Hzeta, resp(r, N, get, q, inp_u(sh.size)), resp(b, N, get, q, inp_u(sh.size)), N, l + n + p, q, 'Hzeta is not that of the current coefficients (%s)' % when, sh.size)
    else:
        get = lambda s: s[3]
        response(m, 'derived systems', R.Hepsilon, resp(r, N, get, l + n + p, inp_e(sh.size)), resp(b, N, get, l + n + p, inp_e(sh.size)), N, p, l + n + p, 'Hepsilon is not that of the current coefficients (%s)' % when, sh.size)


def q_gram(m, R, sh, rng, when):
    """Gramians (when the current realization is stable)"""
    A, B, C, D = dss(sh.mats(), sh.size)
    n = sh.size[1]
    if any(sum(abs(x) for x in r) > F(7, 8) for r in A):
        return
    def sol(A, Q):
        X = Q
        M, T_ = numpy.array(o.npmat(A), dtype=float), numpy.array(o.npmat(Q), dtype=float)
        S = T_.copy()
        for _ in range(400):
            T_ = M.dot(T_).dot(M.T)
            S = S + T_
        return S
    for k, X, E in (('Wc', R.Wc, sol(A, o.mul(B, o.T(B)))), ('Wo', R.Wo, sol(o.T(A), o.mul(o.T(C), C)))):
        m.ok('Gramians', numpy.allclose(X, E, rtol=1e-7, atol=1e-7 * abs(E).max(initial=0)) and numpy.shape(X) == (sh.size[1],) * 2, '%s is not the Gramian of the current coefficients (%s)' % (k, when), got=X, expected=E)


QUERIES = [q_dss, q_exact, q_tf, q_sim, q_derived, q_derived, q_gram]


def new_value(rng, sh, k, shape):
    """in the units of the realization"""
    u = sh.units[k]
    return [[o.rnd(x * u, 53) for x in r] for r in new_coeffs(rng, [[x / u for x in r] for r in sh.d[k]], k, shape)]


def new_coeffs(rng, cur, k, shape):
    M = o.rand_mat(rng, shape[0], shape[1], 4, -2, 1, 0.3)
    if k == 'J':
        for i in range(shape[0]):
            for j in range(i, shape[0]):
                M[i][j] = F(int(i == j))
            for j in range(i):
                if rng.random() < 0.3:
                    M[i][j] = cur[i][j] + rng.choice([-1, 0, 1]) * F(1, 2 ** rng.choice([10, 20, 30]))
    elif rng.random() < 0.35:
        # values very close to the current ones
        e = F(1, 2 ** rng.choice([10, 20, 25, 30, 40, 45]))
        one = rng.random() < 0.5
        M = [list(r) for r in cur]
        cells = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
        for i, j in ([rng.choice(cells)] if one and cells else cells):
            M[i][j] += e * rng.choice([-1, 1] if one else [-1, 0, 1])
    elif rng.random() < 0.5:
        # a single coefficient changed
        old = [list(r) for r in cur]
        if old and old[0]:
            i, j = rng.randrange(shape[0]), rng.randrange(shape[1])
            old[i][j] += o.dyadic(rng, 3, -2, 0, 0)
            M = old
    return M


def build(rng, mats, size, cls=None):
    cls = cls or rng.choice([SIF, Realization])
    given = [forms(rng, M, s) for M, s in zip(mats, shapes(*size))]
    R = SIF(tuple(given)) if cls is SIF else Realization(None, tuple(given))
    return R, given, cls.__name__


def history(m, rng, i):
    size = rsize(rng)
    mats = rand_mats(rng, *size, rho=F(7, 8) if rng.random() < 0.6 else None)
    units = rand_units(rng)
    mats = rescale(mats, units)
    if size[0] > 1 and set(units.values()) == {F(1)} and rng.random() < 0.2:
        mats = [[[x if k == 'J' and i2 == j2 else o.rnd(x * F(rng.getrandbits(52) | 1 << 52, 1 << 53), 53) for j2, x in enumerate(r)] for i2, r in enumerate(M)] for k, M in zip(NAMES, mats)]
        mats = graded(rng, mats, size)
        m.seen('tiny terms in J')
    R, given, cls = build(rng, mats, size)
    sh = Shadow([[list(r) for r in M] for M in mats], size, units)
    n = rng.randint(4, 14)
    log = []
    for _ in range(n):
        r = rng.random()
        log.append('set' if r < 0.5 else 'query')
    kinds = ''.join('s' if x == 'set' else 'q' for x in log)
    m.case({'object': cls, 'size': size, 'history': kinds, 'P': o.sbm(sh.d['P'])}, nontrivial='qs' in kinds and 'q' in kinds[kinds.find('qs') + 1:], key=(cls, size, kinds, mats))
    readback(m, R, sh, 'just built')
    # scribble on what the object was built from
    for g in given:
        if isinstance(g, numpy.ndarray) and g.size:
            g[:] = 77
    readback(m, R, sh, 'after its source was changed')
    # (null matrices must not be mistaken)
    others = []
    last = 'built'
    for a in log:
        if a == 'set':
            l = size[0]
            k = rng.choice(NAMES + ['Z'] * 3)
            if k == 'Z':
                nm = [new_value(rng, sh, c, s) for c, s in zip(NAMES, shapes(*size))]
                Z = o.npmat(zmat(nm, size))
                v = rng.choice([Z, numpy.array(Z), numpy.matrix(numpy.asfortranarray(Z))])
                if all(x.denominator == 1 and abs(x) < 2 ** 40 for r in zmat(nm, size) for x in r):
                    v = numpy.matrix(Z, dtype=int)
                R.Z = v
                sh.d = dict(zip(NAMES, nm))
                v[:] = 55
            else:
                s = dict(zip(NAMES, shapes(*size)))[k]
                nm = new_value(rng, sh, k, s)
                if not (s[0] and s[1]):
                    continue
                v = forms(rng, nm, s)
                if isinstance(v, list):
                    v = numpy.matrix(v)
                setattr(R, k, v)
                sh.d[k] = nm
                v[:] = 55
            last = 'after %s was set' % k
            readback(m, R, sh, last)
        else:
            f = rng.choice(QUERIES)
            f(m, R, sh, rng, last)
            m.seen('query:' + f.__name__)
        if rng.random() < 0.15:
            # another object built from this one: they do not influence each other
            kind = rng.choice(['views', 'delta', 'deepcopy'])
            O = SIF(R.JtoS) if kind == 'views' else R.computeDeltaSIF() if kind == 'delta' else deepcopy(R)
            others.append((O, Shadow([o.fmat(x) for x in O.JtoS], O.size, sh.units), kind))
            if rng.random() < 0.5:
                X = new_value(rng, sh, 'P', (size[1], size[1]))
                O.P = o.npmat(X)
                others[-1][1].d['P'] = X
    readback(m, R, sh, 'at the end')
    for f in (q_dss, q_sim, q_derived):
        f(m, R, sh, rng, 'at the end')
    for O, s, kind in others:
        readback(m, O, s, 'object built from another one (%s), at the end' % kind)
        q_dss(m, O, s, rng, 'object built from another one (%s), at the end' % kind)
        m.seen('independence')


def deltas(m, rng, i):
    """the exactness flags are those given"""
    size = rsize(rng)
    l, n, p, q = size
    mats = rand_mats(rng, *size)
    flags = [[[F(rng.randint(0, 1)) for _ in range(s[1])] for _ in range(s[0])] for s in shapes(*size)]
    given = [o.npmat(x, s[1]) for x, s in zip(flags, shapes(*size))]
    how = rng.choice(['constructor', 'setters', 'dZ'])
    m.case({'flags': how, 'size': size}, key=(size, flags))
    J = npmats(mats, size)
    if how == 'constructor':
        R = SIF(J, dJtodS=given) if rng.random() < 0.5 else Realization(None, J, dJtodS=given)
    else:
        R = SIF(J)
        if how == 'setters':
            # (some of them are written several times)
            for k in rng.sample(NAMES, 9) + [rng.choice(NAMES) for _ in range(rng.randint(0, 12))]:
                j = NAMES.index(k)
                if rng.random() < 0.5:
                    flags[j] = [[F(rng.randint(0, 1)) for _ in r] for r in flags[j]]
                    given[j] = o.npmat(flags[j], shapes(*size)[j][1])
                if given[j].size:
                    setattr(R, 'd' + k, given[j])
                    given[j] = given[j].copy()
        else:
            R.dZ = numpy.bmat([[given[0], given[3], given[4]], [given[1], given[5], given[6]], [given[2], given[7], given[8]]])
    Z = zmat(flags, size)
    for a in range(l):
        for b in range(l):
            Z[a][b] = -Z[a][b]
    m.ok('flags', o.fmat(R.dZ) == Z, 'dZ is not made of dJ..dS (%s)' % how, got=R.dZ)
    for k, v, s in zip(NAMES, flags, shapes(*size)):
        X = getattr(R, 'd' + k)
        m.ok('flags', X.shape == s and o.fmat(X) == v, 'd%s does not read back what was written (%s)' % (k, how), got=X, expected=v)
    m.ok('flags', all(numpy.array_equal(x, getattr(R, 'd' + k)) for k, x in zip(NAMES, R.dJtodS)), 'dJtodS is not (dJ, ..., dS)')
    m.ok('flags', o.fmat(R.Z) == zmat(mats, size), 'the flags changed the coefficients')


def refusals(m, rng, i):
    """one matrix of a wrong size"""
    size = (rng.randint(0, 3),) + tuple(rng.randint(1, 3) for _ in range(3))
    mats = rand_mats(rng, *size)
    good = npmats(mats, size)
    k = rng.randrange(9)
    a, b = good[k].shape
    dims = [(x, y) for x in (a - 1, a, a + 1) for y in (b - 1, b, b + 1) if x >= 0 and y >= 0 and (x, y) != (a, b)]
    # (a change of the dimension that no other matrix gives is a legal change)
    x, y = rng.choice(dims)
    bad = list(good)
    bad[k] = numpy.matrix(numpy.ones((x, y)))
    sh = [M.shape for M in bad]
    rows = {'l': [], 'n': [], 'p': [], 'q': []}
    for (r, c), (vr, vc) in zip(sh, [('l', 'l'), ('n', 'l'), ('p', 'l'), ('l', 'n'), ('l', 'q'), ('n', 'n'), ('n', 'q'), ('p', 'n'), ('p', 'q')]):
        rows[vr].append(r)
        rows[vc].append(c)
    legal = all(len(set(v)) == 1 for v in rows.values())
    m.case({'refused': NAMES[k], 'size': size, 'given': (x, y)}, nontrivial=not legal)
    if not legal:
        m.raises('refusals', ValueError, lambda: SIF(tuple(bad)), '%s of size %dx%d in a realization of size %r' % (NAMES[k], x, y, size))
        m.raises('refusals', ValueError, lambda: Realization(None, tuple(bad)), '%s of size %dx%d in a realization of size %r' % (NAMES[k], x, y, size))
    R = SIF(good)
    qq = rng.choice([v for v in (size[3] - 1, size[3] + 1, size[3] + 3) if v > 0])
    m.raises('refusals', ValueError, lambda: R.simulate(rng.choice([numpy.matrix, numpy.array])(numpy.ones((qq, rng.choice([1, 4, size[3], size[3]]))))), 'simulation with a wrong number of inputs')
    # a coefficient matrix (or all of them, or the flags) replaced by one of another size
    n = rng.choice(NAMES + ['Z'] * 3)
    a, b = dict(zip(NAMES, shapes(*size))).get(n, R.Z.shape)
    x, y = rng.choice([(v, w) for v in {1, a - 1, a, a + 1} for w in {1, b - 1, b, b + 1} if v >= 0 and w >= 0 and (v, w) != (a, b)])
    X = rng.choice([numpy.eye(x, y), numpy.ones((x, y)), numpy.zeros((x, y))])
    X = rng.choice([X, numpy.matrix(X)] + [X.tolist()] * bool(x and y))
    if rng.random() < 0.25:
        n = 'd' + n
    F0 = o.fmat(R.dZ)
    m.raises('refusals', ValueError, lambda: setattr(R, n, X), '%s of size %dx%d set in a realization of size %r' % (n, x, y, size))
    sh = Shadow(mats, size)
    when = 'after a refused change of %s' % n
    readback(m, R, sh, when)
    q_dss(m, R, sh, rng, when)
    m.ok('flags', o.fmat(R.dZ) == F0, 'the flags have changed %s' % when)
    l = size[0]
    if l:
        # J given by unsigned integers or booleans
        J = [[F(int(i == j or (j < i and rng.random() < 0.5))) for j in range(l)] for i in range(l)]
        X = numpy.matrix([[int(v) for v in r] for r in J], dtype=rng.choice([bool, numpy.uint8, numpy.uint64, numpy.int8]))
        if rng.random() < 0.5:
            R.J = rng.choice([X, numpy.array(X), X.tolist()])
        else:
            R = SIF((X,) + good[1:])
        sh.d['J'] = J
        readback(m, R, sh, 'J given by small integers')
        q_dss(m, R, sh, rng, 'J given by small integers')


WORKLOADS = [Workload('history', history, 1500, 30000), Workload('flags', deltas, 300, 4000), Workload('refusals', refusals, 400, 6000)]
EXPECT = {'coefficients': 3000, 'Z': 800, 'state-space': 500, 'exact state-space': 30, 'transfer function': 30, 'simulation': 200, 'derived systems': 200, 'Gramians': 20, 'independence': 30,
          'flags': 800, 'refusals': 200}
