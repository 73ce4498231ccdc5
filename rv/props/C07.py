# coding: utf-8
"""C07: Gramians, norms, DC gain and worst-case peak gain"""
from fractions import Fraction as F
import sys
import numpy
from numpy.linalg import LinAlgError
from rv import oracle as o
from rv.core import Workload, StopCase
from rv.props.C06 import rand_sys, unimodular, make
from fixif.LTI import dSS

PROPERTY = 'C07'
RULE = ('random stable systems (0..6 states, 1..3 inputs and outputs) driven through random histories of queries (Gramians, H2 norm, DC gain, WCPG, '
        'explicit recomputations, derived systems) and changes of basis; every answer is compared with the one of the matrices held at that '
        'moment; non-trivial when the history has a change of basis between two queries')
ASSUMPTIONS = ['row-sum norm of the initial A below 0.9 (well-conditioned Lyapunov equations)', 'changes of basis of condition number below 300',
               'slycot is not installed: the scipy solver is used, or stand-ins of the two functions of slycot', 'the WCPG library is replaced by a stand-in (stubs/fixif/WCPG)']
NP = numpy.longdouble


def arr(M):
    return numpy.array(M, dtype=NP)


def response(S, N=600):
    A, B, C, D = [arr(x) for x in (S.A, S.B, S.C, S.D)]
    h = [D]
    X = B
    cut = 1e-25 * float(numpy.max(numpy.abs(B)))
    for _ in range(N):
        h.append(C @ X)
        X = A @ X
        if not numpy.any(numpy.abs(X) > cut):
            break
    return h


def size_of(S):
    """sum of |C|.|A^k B|: the scale of the rounding errors when the terms of C A^k B cancel"""
    A, B, C = [arr(x) for x in (S.A, S.B, S.C)]
    X, t, k = B, 0, 0
    while k < 600 and numpy.any(numpy.abs(X) > 1e-15 * numpy.max(numpy.abs(B))):
        t = t + float(numpy.sum(numpy.abs(C)) * numpy.sum(numpy.abs(X)))
        X, k = A @ X, k + 1
    return t


def query(m, S, what, rng, note):
    A, B, C, D = [arr(x) for x in (S.A, S.B, S.C, S.D)]
    if what in ('Wo', 'calc_Wo'):
        if what == 'calc_Wo':
            S.calc_Wo(rng.choice([None, 'linalg', 'slycot']))
        W = arr(S.Wo)
        R = A.T @ W @ A + C.T @ C
        ref = max(1e-300, float(numpy.max(numpy.abs(W))) * max(1.0, float(numpy.max(numpy.abs(A))) ** 2))
        m.ok('observability Gramian', W.shape == A.shape and numpy.max(numpy.abs(R - W)) <= 1e-9 * ref, 'Wo does not solve its Lyapunov equation ' + note, W=S.Wo, A=S.A, C=S.C)
    elif what in ('Wc', 'calc_Wc'):
        if what == 'calc_Wc':
            S.calc_Wc(rng.choice([None, 'linalg', 'slycot']))
        W = arr(S.Wc)
        R = A @ W @ A.T + B @ B.T
        ref = max(1e-300, float(numpy.max(numpy.abs(W))) * max(1.0, float(numpy.max(numpy.abs(A))) ** 2))
        m.ok('controllability Gramian', W.shape == A.shape and numpy.max(numpy.abs(R - W)) <= 1e-9 * ref, 'Wc does not solve its Lyapunov equation ' + note, W=S.Wc, A=S.A, B=S.B)
    elif what == 'H2':
        ref = float(numpy.sqrt(sum(numpy.sum(x * x) for x in response(S))))
        got = float(S.H2norm())
        if ref < 1e-4 * float(numpy.max(numpy.abs(B))) * float(numpy.max(numpy.abs(C))):
            # the square root of a rounding error
            state = [B]
            while len(state) < 600 and numpy.any(numpy.abs(state[-1]) > 1e-15 * numpy.max(numpy.abs(B))):
                state.append(A @ state[-1])
            scl = float(numpy.sqrt(sum(numpy.sum(x * x) for x in state)) * numpy.sqrt(numpy.sum(C * C)))
            m.ok('negligible H2 norm', abs(got - ref) <= 3e-6 * scl, 'wrong H2 norm (negligible with respect to the coefficients) ' + note, got=got, expected=ref, scale=scl, size=S.size)
            return
        m.ok('H2 norm', abs(got - ref) <= 1e-7 * ref, 'wrong H2 norm ' + note, got=got, expected=ref, size=S.size)
    elif what in ('WCPG', 'WCPG_info'):
        ref = sum(numpy.abs(x) for x in response(S)).astype(float)
        info = {}
        got = numpy.array(S.WCPG(info) if what == 'WCPG_info' else S.WCPG())
        m.ok('WCPG', got.shape == ref.shape and numpy.max(numpy.abs(got - ref)) <= 1e-8 * numpy.max(ref) + 1e-12 * size_of(S), 'wrong worst-case peak gain ' + note, got=got, expected=ref)
        if what == 'WCPG_info':
            m.ok('WCPG', 'N' in info, 'the information on the computation was not given')
    elif what == 'DC':
        ref = sum(response(S)).astype(float)
        got = numpy.array(S.calc_DC_gain())
        scl = max(float(numpy.max(sum(numpy.abs(x) for x in response(S)))), 1e-300)
        m.ok('DC gain', got.shape == ref.shape and numpy.max(numpy.abs(got - ref)) <= 1e-8 * scl + 1e-12 * size_of(S), 'wrong DC gain ' + note, got=got, expected=ref)


Q = ['Wo', 'Wc', 'H2', 'WCPG', 'DC', 'calc_Wo', 'calc_Wc', 'WCPG_info']


def stable(rng, n=None):
    n = n or (rng.randint(1, 6) if rng.random() < 0.9 else rng.randint(9, 12))
    p, q = rng.randint(1, 3), rng.randint(1, 3)
    M = rand_sys(rng, n, p, q, bits=8)
    g, h = gain(rng), gain(rng)
    return (o.rand_stable(rng, n, 8), o.scale(M[1], g), o.scale(M[2], h), o.scale(M[3], g * h))


def gain(rng):
    """some systems have very small or very large coefficients"""
    return F(2) ** (rng.randint(-70, 40) if rng.random() < 0.12 else 0)


def history(m, rng, i):
    M = stable(rng)
    S = dSS(*[o.npmat(x) for x in M])
    hist, Ts = [], []
    T = o.eye(S.n)
    for _ in range(rng.randint(4, 12)):
        if rng.random() < 0.3:
            Tk = unimodular(rng, S.n, 2)
            Tn = o.mul(T, Tk)
            if o.maxabs(Tn) * o.maxabs(o.inv(Tn)) * S.n < 300:
                T = Tn
                hist.append('T')
                Ts.append(Tk)
                continue
        hist.append(rng.choice(Q))
    m.case({'size': S.size, 'history': hist}, nontrivial='T' in hist[1:-1], key=(M, hist))
    done = []
    for a in hist:
        if a == 'T':
            S.similarity(o.npmat(Ts.pop(0)))
        else:
            query(m, S, a, rng, 'after %s' % '-'.join(done))
        done.append(a)
    # systems derived from this one have their own values
    D = [S[0, 0], S + S, S * S if S.p == S.q else S[:, 0]]
    for d in D:
        query(m, d, rng.choice(['Wo', 'Wc', 'H2', 'WCPG', 'DC']), rng, 'of a derived system')
    for a in ('Wo', 'Wc', 'H2', 'WCPG', 'DC'):
        query(m, S, a, rng, 'at the end of %s' % '-'.join(done))


def forms(m, rng, i):
    """particular systems: nilpotent, diagonal, oscillating, FIR-like, null"""
    n = rng.randint(1, 6)
    kind = ['nilpotent', 'diagonal', 'oscillating', 'null', 'unobservable', 'negligible'][i % 6]
    A = o.zeros(n, n)
    if kind == 'nilpotent':
        for k in range(n - 1):
            A[k][k + 1] = F(1)
    elif kind == 'diagonal':
        for k in range(n):
            A[k][k] = F(rng.randint(-60, 60), 64)
    elif kind == 'oscillating':
        n += n % 2
        A = o.zeros(n, n)
        for k in range(0, n, 2):
            a, b = F(rng.randint(-40, 40), 64), F(rng.randint(1, 44), 64)
            A[k][k] = A[k + 1][k + 1] = a
            A[k][k + 1], A[k + 1][k] = b, -b
    M = (A,) + rand_sys(rng, n)[1:]
    if kind in ('unobservable', 'negligible'):
        # the outputs do not see (or hardly see) what the inputs excite, in any basis
        n1, n2 = rng.randint(1, 3), rng.randint(1, 3)
        n, p, q = n1 + n2, rng.randint(1, 2), rng.randint(1, 2)
        A = [a + b for a, b in zip(o.rand_stable(rng, n1, 6), o.rand_mat(rng, n1, n2, 4, -2, 0, 0.3))] + [a + b for a, b in zip(o.zeros(n2, n1), o.rand_stable(rng, n2, 6))]
        B = o.rand_mat(rng, n1, q, 5, -2, 2, 0.15) + o.zeros(n2, q)
        C = [a + b for a, b in zip(o.zeros(p, n1), o.rand_mat(rng, p, n2, 5, -2, 2, 0.15))]
        D = o.zeros(p, q)
        if kind == 'negligible':
            D[0][0] = F(2) ** -rng.randint(8, 60)
        T = unimodular(rng, n, 2) if rng.random() < 0.7 else o.eye(n)
        Ti = o.inv(T)
        M = (o.mul(Ti, o.mul(A, T)), o.mul(Ti, B), o.mul(C, T), D)
    S = dSS(*[o.npmat(x) for x in M])
    m.case({'form': kind, 'size': S.size}, nontrivial=kind != 'null', key=(kind, M))
    for a in rng.sample(Q, len(Q)):
        query(m, S, a, rng, 'of a %s system' % kind)


def undefined(m, rng, i):
    n = rng.randint(1, 4)
    A = o.zeros(n, n)
    pole = rng.choice([1, 1, -1])
    for k in range(n):
        A[k][k] = F(rng.randint(-30, 30), 64)
        for l in range(k + 1, n) if pole == 1 and i % 2 else ():
            A[k][l] = F(rng.randint(-4, 4), 4)
    k = rng.randrange(n)
    A[k][k] = F(pole)
    q = p = rng.randint(1, 2)
    B = [[F(rng.randint(1, 4)) for _ in range(q)] for _ in range(n)]
    C = [[F(rng.randint(1, 4)) for _ in range(n)] for _ in range(p)]
    S = dSS(*[o.npmat(x) for x in (A, B, C, o.zeros(p, q))])
    m.case({'pole': pole, 'A': o.sbm(A)})
    E = (ValueError, LinAlgError, ArithmeticError)
    if pole == 1:
        m.raises('undefined values refused', E, lambda: S.calc_DC_gain(), 'DC gain with a pole at 1', A=o.sbm(A))
        if i % 2:       # upper triangular: exactly singular for the DC gain, not necessarily for the Lyapunov solver
            return
    m.raises('undefined values refused', E, lambda: S.Wo, 'Wo with a pole at %d' % pole, A=o.sbm(A))
    m.raises('undefined values refused', E, lambda: S.Wc, 'Wc with a pole at %d' % pole, A=o.sbm(A))
    m.raises('undefined values refused', E, lambda: S.H2norm(), 'H2 norm with a pole at %d' % pole, A=o.sbm(A))


def gains(m, rng, i):
    """systems without state (simple gains), given so or obtained from others"""
    p, q = rng.randint(1, 3), rng.randint(1, 3)
    g = gain(rng)
    D = o.scale(rand_sys(rng, 0, p, q, bits=8)[3], g)
    M = ([], [], [[] for _ in range(p)], D)
    S = make(M)
    how = rng.choice(['given', 'sum', 'difference', 'product', 'simplified', 'selection'])
    if how in ('sum', 'difference'):
        E = o.scale(rand_sys(rng, 0, p, q)[3], g)
        S, D = (S + make(M[:3] + (E,)), o.add(D, E)) if how == 'sum' else (S - make(M[:3] + (E,)), o.sub(D, E))
    elif how == 'product':
        E = rand_sys(rng, 0, q, q)[3]
        S, D = S * make(([], [], [[] for _ in range(q)], E)), o.mul(D, E)
    elif how == 'simplified':
        S = make((o.zeros(2, 2), o.zeros(2, q), rand_sys(rng, 2, p, q)[2], D)).simplify()
    elif how == 'selection':
        k = rng.randrange(p)
        S, D = S[k, :], [D[k]]
    m.case({'gain': how, 'D': o.sbm(D)}, key=(how, D), nontrivial=any(x for r in D for x in r))
    ref = numpy.array([[float(x) for x in r] for r in D])
    for a in rng.sample(Q, len(Q)):
        if a in ('Wo', 'calc_Wo', 'Wc', 'calc_Wc'):
            getattr(S, a) if a in ('Wo', 'Wc') else getattr(S, a)(rng.choice([None, 'linalg', 'slycot']))
            W = S.Wo if 'o' in a else S.Wc
            m.ok('gain', W.shape == (0, 0), 'the Gramian of a system without state is not empty', W=W)
        elif a == 'H2':
            e = float(numpy.sqrt(numpy.sum((ref / float(g)) ** 2))) * float(g)
            m.ok('gain', abs(float(S.H2norm()) - e) <= 1e-7 * e, 'wrong H2 norm', got=float(S.H2norm()), expected=e)
        else:
            got = numpy.array(S.calc_DC_gain() if a == 'DC' else S.WCPG() if a == 'WCPG' else S.WCPG({}))
            e = ref if a == 'DC' else abs(ref)
            m.ok('gain', got.shape == e.shape and numpy.max(numpy.abs(got - e)) <= 1e-12 * numpy.max(abs(e)), '%s of a gain' % a, got=got, expected=e)


def failing(m, rng, i):
    """one of the Gramians cannot be computed (injected failure of its solver): the H2 norm is the right one, or refused"""
    M = stable(rng)
    S = make(M)
    fault = rng.choice(['calc_Wc', 'calc_Wo', 'both'])
    m.case({'failure of': fault, 'size': S.size}, key=(fault, M))

    def fail(*a, **k):
        raise LinAlgError('injected failure')
    if fault == 'both':
        S.calc_Wc = S.calc_Wo = fail
    else:
        setattr(S, fault, fail)
    ref = float(numpy.sqrt(sum(numpy.sum(x * x) for x in response(S))))
    if ref < 1e-4 * float(numpy.max(numpy.abs(arr(S.B)))) * float(numpy.max(numpy.abs(arr(S.C)))):
        raise StopCase()
    try:
        got = float(S.H2norm())
        m.note('H2 norm with %s failing: computed' % fault)
    except (ValueError, LinAlgError, ArithmeticError):
        m.note('H2 norm with %s failing: refused' % fault)
        m.seen('H2 norm under failure')
        return
    m.ok('H2 norm under failure', abs(got - ref) <= 1e-7 * ref, 'wrong H2 norm when %s fails' % fault, got=got, expected=ref, size=S.size)


def slow(m, rng, i):
    """systems with (several) poles close to the unit circle, or to 1: everything is computed exactly, block by block"""
    blocks, n, top = [], 0, 0
    lim = rng.choice([2, 4, 7, 9])
    same = rng.choice([None, 1, 1, -1])
    while n < lim:
        k = rng.randint(4, 16)
        if n + 2 <= lim and same is None and rng.random() < 0.5:
            # modulus sqrt(c^2+s^2) < 1
            c = F(rng.randint(-2 ** k + 1, 2 ** k - 1), 2 ** k)
            s_ = F(int(2 ** k * float(1 - c * c) ** 0.5) - 1, 2 ** k)
            if not 0 < s_ or c * c + s_ * s_ >= 1:
                continue
            blocks.append([[c, s_], [-s_, c]])
            d = 1 - c * c - s_ * s_
        else:
            a = (same or rng.choice([1, -1])) * (1 - F(rng.randint(1, 3), 2 ** k))
            blocks.append([[a]])
            d = 1 - abs(a)
        top = max(top, 1 / float(d))
        n += len(blocks[-1])
    p, q = rng.randint(1, 2), rng.randint(1, 2)
    _, B, C, D = rand_sys(rng, n, p, q, bits=6)
    A = o.zeros(n, n)
    pos = []
    for b in blocks:
        r = sum(len(x) for x in pos)
        pos.append(list(range(r, r + len(b))))
        for x in range(len(b)):
            for y in range(len(b)):
                A[r + x][r + y] = b[x][y]
    S = dSS(*[o.npmat(x) for x in (A, B, C, D)])
    m.case({'slow system': n, 'blocks': [o.sbm(b) for b in blocks]}, key=(A, B, C, D))

    def gram(tr, BB):
        W = o.zeros(n, n)
        for bi, pi in zip(blocks, pos):
            for bj, pj in zip(blocks, pos):
                u, v = (o.T(bi), o.T(bj)) if tr else (bi, bj)
                ix = [(x, y) for x in range(len(pi)) for y in range(len(pj))]
                E = o.inv([[F(int(e == f)) - u[e[0]][f[0]] * v[e[1]][f[1]] for f in ix] for e in ix])
                for e, r in zip(ix, E):
                    W[pi[e[0]]][pj[e[1]]] = sum(c * BB[pi[f[0]]][pj[f[1]]] for c, f in zip(r, ix))
        return W
    Wc, Wo = gram(False, o.mul(B, o.T(B))), gram(True, o.mul(o.T(C), C))
    X = o.mul(C, o.inv(o.sub(o.eye(n), A)))
    G = o.add(o.mul(X, B), D)
    fl = lambda M: numpy.array([[float(x) for x in r] for r in M])
    for a in rng.sample(['Wo', 'Wc', 'H2', 'DC'], 4):
        if a in ('Wo', 'Wc'):
            got, ref = numpy.array(getattr(S, a)), fl(Wo if a == 'Wo' else Wc)
            m.ok('slow systems', numpy.max(abs(got - ref)) <= 1e-13 * top * numpy.max(abs(ref)), 'wrong %s of a system with poles close to the unit circle' % a, got=got, expected=ref)
        elif a == 'H2':
            t = sum(o.mul(o.mul(C, Wc), o.T(C))[k][k] + o.mul(D, o.T(D))[k][k] for k in range(p))
            scl = sum(abs(C[k][x]) * abs(Wc[x][y]) * abs(C[k][y]) for k in range(p) for x in range(n) for y in range(n))
            if float(scl) * 1e-13 * top > 1e-3 * float(t):
                continue
            got, ref = float(S.H2norm()), float(t) ** 0.5
            m.ok('slow systems', abs(got * got - ref * ref) <= 1e-12 * ref * ref + 1e-13 * top * float(scl), 'wrong H2 norm of a system with poles close to the unit circle', got=got, expected=ref)
        else:
            scl = float(o.maxabs(o.mul(o.absm(X), o.absm(B))) + o.maxabs(D))
            got, ref = numpy.array(S.calc_DC_gain()), fl(G)
            m.ok('slow systems', numpy.max(abs(got - ref)) <= 1e-11 * scl, 'wrong DC gain of a system with poles close to the unit circle', got=got, expected=ref)


class Slycot(object):
    """stand-ins of the two functions of slycot, given to the module that uses them (as those of slycot, they overwrite their arguments)"""
    def __init__(self, fails=False):
        self.fails, self.calls = fails, 0
        self.mod = sys.modules['fixif.LTI.dSS']

    def sb03md(self, n, C, A, U, dico, job='X', fact='N', trana='N', ldwork=None):
        self.calls += 1
        a, c = numpy.array(A, dtype=float), numpy.array(C, dtype=float)
        assert a.shape == c.shape == numpy.shape(U) == (n, n) and dico == 'D'
        for X in (A, C, U):
            X[:] = 1e9
        if self.fails:
            e = ValueError('failed')
            e.info = 1
            raise e
        if trana == 'N':
            a = a.T
        X, k = -arr(c), arr(a)
        for _ in range(14):
            X, k = X + k @ X @ k.T, k @ k
        X = X.astype(float)
        return X, 1.0, 0.5, 0.0, numpy.linalg.eigvals(a)

    def ab09ad(self, dico, job, equil, n, m, p, A, B, C, nr=None, tol=0, ldwork=None):
        self.calls += 1
        A, B, C = [numpy.array(x, dtype=float) for x in (A, B, C)]
        assert (A.shape, B.shape, C.shape) == ((n, n), (n, m), (p, n)) and dico == 'D' and job in 'BN' and equil in 'SN'
        if self.fails:
            return 0, A[:0, :0], B[:0], C[:, :0], numpy.zeros(n)
        sol = lambda a, q: numpy.linalg.solve(numpy.eye(n * n) - numpy.kron(a, a), q.reshape(-1)).reshape(n, n)
        Lc, Lo = numpy.linalg.cholesky(sol(A, B @ B.T)), numpy.linalg.cholesky(sol(A.T, C.T @ C))
        u, s, vt = numpy.linalg.svd(Lo.T @ Lc)
        T, Ti = Lc @ vt.T / numpy.sqrt(s), (u / numpy.sqrt(s)).T @ Lo.T
        return n, Ti @ A @ T, Ti @ B, C @ T, s

    def __enter__(self):
        self.old = {k: getattr(self.mod, k, None) for k in ('sb03md', 'ab09ad')}
        self.mod.sb03md, self.mod.ab09ad = self.sb03md, self.ab09ad
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                delattr(self.mod, k)
            else:
                setattr(self.mod, k, v)


def methods(m, rng, i):
    """all the methods, with and without slycot"""
    n = rng.randint(1, 4)
    M = stable(rng, n)
    S = dSS(*[o.npmat(x) for x in M])
    m.case({'methods': S.size}, key=M)
    before = [x.copy() for x in (S.A, S.B, S.C, S.D)]
    m.raises('unknown method', ValueError, lambda: rng.choice([S.calc_Wo, S.calc_Wc])(rng.choice(['toto', '', 'Slycot', 0])), 'Gramian with an unknown method')
    m.raises('unknown method', ImportError, S.balanced, 'balanced without slycot')
    T = unimodular(rng, n, 3)
    with Slycot() as sl:
        default = dSS._W_method
        try:
            for _ in range(rng.randint(2, 6)):
                r = rng.random()
                if r < 0.2:
                    dSS._W_method = rng.choice(['linalg', 'slycot'])
                elif r < 0.35:
                    S = dSS(*[x.copy() for x in (S.A, S.B, S.C, S.D)])
                elif r < 0.5 and T:
                    S.similarity(o.npmat(T))
                    T = None
                    before = [x.copy() for x in (S.A, S.B, S.C, S.D)]
                query(m, S, rng.choice(['Wo', 'Wc', 'calc_Wo', 'calc_Wc', 'H2']), rng, 'with slycot')
                m.ok('system untouched', all(numpy.array_equal(x, y) for x, y in zip(before, (S.A, S.B, S.C, S.D))), 'a computation of Gramians modified the system')
        finally:
            dSS._W_method = default
        m.seen('slycot used', sl.calls)
        # balanced system
        A, B, C, D = [numpy.array(o.npmat(x)) for x in M]
        P = dSS(A, B, C, D)
        sv = numpy.sqrt(abs(numpy.linalg.eigvals(numpy.array(P.Wc) @ numpy.array(P.Wo))))
        if sv.min() > 1e-6 * sv.max() and all(numpy.linalg.cond(w) < 1e8 for w in (P.Wc, P.Wo)):
            b = P.balanced()
            hP, hb = response(P, 40), response(b, 40)
            scl = float(numpy.max(sum(abs(x) for x in hP))) + size_of(P)
            m.ok('balanced', b.size == P.size and all(numpy.max(abs(x - y)) <= 1e-7 * scl for x, y in zip(hP, hb)), 'the balanced system is not equivalent', got=b)
            gw = [numpy.array(w) for w in (b.Wc, b.Wo)]
            m.ok('balanced', all(numpy.max(abs(w - numpy.diag(sorted(sv)[::-1]))) <= 1e-5 * sv.max() for w in gw), 'the Gramians of the balanced system are not equal and diagonal', got=gw, expected=sv)
            query(m, b, rng.choice(['Wo', 'Wc', 'H2', 'DC']), rng, 'of a balanced system')
    with Slycot(fails=True):
        S = dSS(*[o.npmat(x) for x in M])
        m.raises('failure of slycot', ValueError, lambda: rng.choice([S.calc_Wo, S.calc_Wc])('slycot'), 'Gramian when slycot fails')
        m.raises('failure of slycot', ValueError, S.balanced, 'balanced system when slycot fails')
    for k in rng.sample(['Wo', 'Wc', 'H2', 'DC'], 3):
        query(m, S, k, rng, 'after a failure of slycot')


WORKLOADS = [Workload('methods', methods, 100, 1500), Workload('slow', slow, 60, 800), Workload('failing', failing, 60, 800), Workload('gains', gains, 60, 800), Workload('history', history, 150, 2500), Workload('forms', forms, 180, 1800), Workload('undefined', undefined, 60, 800)]
EXPECT = {'slycot used': 50, 'balanced': 60, 'failure of slycot': 150, 'slow systems': 180, 'H2 norm under failure': 50, 'gain': 200, 'negligible H2 norm': 20, 'observability Gramian': 200, 'controllability Gramian': 200, 'H2 norm': 200, 'WCPG': 200, 'DC gain': 200, 'undefined values refused': 80}
