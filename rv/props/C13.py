# coding: utf-8
"""C13: the systems derived from a realization (internal variables, errors, quantization error)"""
from fractions import Fraction as F
import numpy
from rv import oracle as o
from rv.core import Workload
from rv.sif import Ref, NAMES, shapes, rand_mats, npmats, dss, zmat, rand_units, rescale, graded
from rv.props.C18 import candidates, value
from rv.props.C12 import rsize, absref, Shadow, resp, inp_u, inp_e, response
from fixif.SIF import SIF, Realization
from fixif.SIF.SIF_tilde_error import SIFH_to_SIFHstar, WCPG_txy
from fixif.LTI import dSS, random_Filter
from fixif import Structures as St

PROPERTY = 'C13'
RULE = ('random implicit realizations (0..4 intermediate variables, 0..4 states, 1..3 inputs and outputs) and structured ones, whose derived systems (internal variables, '
        'injected errors, difference with the quantized realization on 3..20 bits) are compared with the step-by-step evaluation of the implicit equations, with impulses and '
        'with random inputs and errors; the generated inputs are compared with the exhaustive maximum over the vertices of the input box; non-trivial with an intermediate variable')
ASSUMPTIONS = ['J is lower triangular with ones on its diagonal', 'coefficients of 4 to 8 bits: double computations are compared within 1e-9 of the sums of absolute values',
               'the fixed-point constants are those of the stand-in of the (absent) fixif.FxP package: nearest value on w bits']


def rand_real(rng, rho=None, bits=4, size=None):
    size = size or rsize(rng)
    mats = rescale(rand_mats(rng, *size, bits=bits, rho=rho), rand_units(rng))
    if size[0] > 1 and rng.random() < 0.1:
        mats = graded(rng, mats, size)
    R = SIF(npmats(mats, size)) if rng.random() < 0.5 else Realization(None, npmats(mats, size))
    return R, Shadow(mats, size)


def untouched(m, R, sh):
    m.ok('realization untouched', o.fmat(R.Z) == zmat(sh.mats(), sh.size) and R.size == sh.size, 'the derived system modified the realization')


def variables(m, rng, i):
    R, sh = rand_real(rng)
    l, n, p, q = sh.size
    N = n + 4
    m.case({'internal variables of': sh.size, 'Z': o.sbm(zmat(sh.mats(), sh.size))}, nontrivial=l > 0)
    r, b = sh.ref(), absref(sh)
    for which in rng.sample(['Hu', 'Hzeta'], 2):
        if which == 'Hu':
            get = lambda s: s[0] + s[2] + s[3]
            what = 'Hu does not output t(k+1), x(k+1), y(k)'
        else:
            get = lambda s: s[0] + s[1] + s[3]
            what = 'Hzeta does not output t(k+1), x(k), y(k)'
        H = getattr(R, which)
        response(m, which, H, resp(r, N, get, q, inp_u(sh.size)), resp(b, N, get, q, inp_u(sh.size)), N, l + n + p, q, what, sh.size)
        # the same on a random input sequence
        u = [[o.dyadic(rng, 4, -1, 2) for _ in range(q)] for _ in range(N)]
        y = o.simulate(*[o.fmat(x) for x in (H.A, H.B, H.C, H.D)], o.T(u))
        ref, big = [get(s) for s in r.run(u)], [get(s) for s in b.run([[abs(x) for x in v] for v in u])]
        top = [max(r[j] for r in big) for j in range(l + n + p)]
        top = [max(g) for g in (top[:l], top[l:l + n], top[l + n:]) for _ in g]
        m.ok(which, all(abs(y[j][k] - ref[k][j]) <= F(1e-9) * (big[k][j] + top[j]) for k in range(N) for j in range(l + n + p)), what + ' (random inputs)')
        m.ok('cached', getattr(R, which) is H or o.fmat(getattr(R, which).C) == o.fmat(H.C), 'asking twice gives another system')
    untouched(m, R, sh)


def errors(m, rng, i):
    R, sh = rand_real(rng)
    l, n, p, q = sh.size
    N = n + 4
    m.case({'errors in': sh.size, 'Z': o.sbm(zmat(sh.mats(), sh.size))}, nontrivial=l > 0)
    r, b = sh.ref(), absref(sh)
    get = lambda s: s[3]
    ref, big = resp(r, N, get, l + n + p, inp_e(sh.size)), resp(b, N, get, l + n + p, inp_e(sh.size))
    response(m, 'Hepsilon', R.Hepsilon, ref, big, N, p, l + n + p, 'Hepsilon is not the effect on y of the errors injected in t, x, y', sh.size)
    D = R.computeDeltaSIF()
    m.ok('delta SIF', D.size == (l, n, p, l + n + p), 'computeDeltaSIF has wrong sizes', size=D.size)
    response(m, 'delta SIF', D.dSS, ref, big, N, p, l + n + p, 'computeDeltaSIF is not the system from the errors injected in t, x, y to y', sh.size)
    h = Ref.of(D).impulse(N)
    m.ok('delta SIF', h == ref, 'computeDeltaSIF, executed, is not the system from the errors injected in t, x, y to y')
    # random inputs and errors together: y = H.u + Hepsilon.e
    u = [[o.dyadic(rng, 4, -1, 2) for _ in range(q)] for _ in range(N)]
    e = [([o.dyadic(rng, 4, -6, -3) for _ in range(l)], [o.dyadic(rng, 4, -6, -3) for _ in range(n)], [o.dyadic(rng, 4, -6, -3) for _ in range(p)]) for _ in range(N)]
    y = [s[3] for s in r.run(u, err=e)]
    y0 = [s[3] for s in r.run(u)]
    H = R.Hepsilon
    ye = o.simulate(*[o.fmat(x) for x in (H.A, H.B, H.C, H.D)], o.T([a + b_ + c for a, b_, c in e]))
    bigu = [s[3] for s in b.run([[abs(x) for x in v] for v in u], err=[tuple([abs(x) for x in w] for w in v) for v in e])]
    top = max(x for r in bigu for x in r)
    m.ok('Hepsilon', all(abs(y[k][j] - y0[k][j] - ye[j][k]) <= F(1e-9) * (bigu[k][j] + top) for k in range(N) for j in range(p)), 'the output with errors is not the exact output plus the output of Hepsilon')
    untouched(m, R, sh)


def near_consts(A, B, w):
    """each entry of B is the one of A rounded on w bits (null, 1 and -1 kept)"""
    return all(b == a if a in (0, 1, -1) else b in candidates(a, w) for ra, rb in zip(A, B) for a, b in zip(ra, rb))


def quantization(m, rng, i):
    w = rng.randint(3, 20)
    R, sh = rand_real(rng, rho=F(7, 8), bits=rng.choice([4, 12, 20]))
    l, n, p, q = sh.size
    prints = rng.random() < 0.2
    if not prints and rng.random() < 0.6:
        # (the gains that are printed need a stable realization)
        # some coefficients that are special on w bits
        k = rng.choice('KLMNPQRS')
        M = [[value(rng, w) if rng.random() < 0.5 else x for x in r] for r in sh.d[k]]
        if any(M):
            M = [[x if abs(x) < 2 ** 60 and (x == 0 or abs(x) > F(1, 2 ** 60)) else F(1, 3) for x in r] for r in M]
            M = [[F(float(x)) for x in r] for r in M]
            setattr(R, k, o.npmat(M))
            sh.d[k] = M
    # (no null coefficient in the constants is a limitation of the package Constant: null ones are kept)
    m.case({'quantization error': sh.size, 'w': w, 'Z': o.sbm(zmat(sh.mats(), sh.size))}, nontrivial=l > 0)
    Q, E = SIFH_to_SIFHstar(R, w, prints=prints)
    m.ok('quantized', Q.size == sh.size and near_consts(zmat(sh.mats(), sh.size), o.fmat(Q.Z), w), 'SIF_tilde is not the realization with coefficients on w bits', got=Q.Z, w=w)
    m.ok('error system', E.size == (2 * l, 2 * n, p, q + l + n + p), 'the error system has wrong sizes', size=E.size)
    N = n + 6
    u = [[o.dyadic(rng, 4, -1, 2) for _ in range(q)] for _ in range(N)]
    e = [([o.dyadic(rng, 4, -8, -3) for _ in range(l)], [o.dyadic(rng, 4, -8, -3) for _ in range(n)], [o.dyadic(rng, 4, -8, -3) for _ in range(p)]) for _ in range(N)]
    shQ = Shadow([o.fmat(x) for x in Q.JtoS], Q.size)
    y = [s[3] for s in sh.ref().run(u)]
    yq = [s[3] for s in shQ.ref().run(u, err=e)]
    dy = [s[3] for s in Ref.of(E).run([a + b[0] + b[1] + b[2] for a, b in zip(u, e)])]
    m.ok('error system', all(yq[k][j] - y[k][j] == dy[k][j] for k in range(N) for j in range(p)),
         'the error system does not output the difference between the quantized realization (with computation errors) and the realization',
         got=[[float(x) for x in v] for v in dy[:3]], expected=[[float(a - b) for a, b in zip(v, z)] for v, z in zip(yq[:3], y[:3])])
    untouched(m, R, sh)


def inputs(m, rng, i):
    """generate_inputs reaches the largest output"""
    size = (rng.randint(0, 3), rng.randint(1, 3), 1, rng.randint(1, 3))
    R, sh = rand_real(rng, rho=F(7, 8), size=size)
    l, n, p, q = size
    m.case({'worst inputs of': size, 'Z': o.sbm(zmat(sh.mats(), size))}, nontrivial=True)
    for k in range(rng.randint(1, 3)):
        if k and rng.random() < 0.4:
            mats = rand_mats(rng, *size, rho=F(7, 8))
            R.Z = o.npmat(zmat(mats, size))
            sh = Shadow(mats, size)
            m.seen('worst inputs after a change')
        ub = [F(rng.randint(1, 40), 8) for _ in range(q)]
        N = rng.randint(1, 12)
        h = sh.ref().impulse(N)
        v = numpy.matrix([[float(x) for x in ub]])
        arg = rng.choice([v, v.T, [float(x) for x in ub], numpy.array([float(x) for x in ub])])
        u = R.generate_inputs(arg, N)
        m.need('worst inputs', u.shape == (q, N), 'generate_inputs has wrong sizes', shape=u.shape)
        U = o.fmat(u)
        m.ok('worst inputs', all(abs(U[j][k]) <= ub[j] for j in range(q) for k in range(N)), 'an input exceeds its bound')
        y = [s[3][0] for s in sh.ref().run(o.T(U))]
        best = sum(ub[j] * abs(h[k][0][j]) for k in range(N) for j in range(q))
        big = [s[3][0] for s in absref(sh).run([[x for x in ub] for _ in range(N)])][-1]
        m.ok('worst inputs', abs(y[-1] - best) <= F(1e-9) * big, 'the last output is not the largest one over the inputs within their bounds', got=float(y[-1]), largest=float(best))
    if q > 0:
        m.raises('refusals', ValueError, lambda: R.generate_inputs([1.0] * (q + 1), N), 'bounds of a wrong size')


def structured(m, rng, i):
    """realizations made by the structures: internal variables and their worst-case gain"""
    f = random_Filter(rng.randint(2, 4), 1, 1, seed=rng.randrange(10 ** 6))
    st = rng.choice([St.DFI, St.DFII, St.State_Space, St.rhoDFII])
    R = st(f)
    sh = Shadow([o.fmat(x) for x in R.JtoS], R.size)
    l, n, p, q = sh.size
    m.case({'structure': st.name, 'filter': f.name})
    N = 12
    for which, k in (('Hu', 2), ('Hzeta', 1)):
        H = getattr(R, which)
        ref = resp(sh.ref(), N, lambda s: s[0] + s[k] + s[3], q, inp_u(sh.size))
        got = o.impulse(*[o.fmat(x) for x in (H.A, H.B, H.C, H.D)], N)
        mag = max([o.maxabs(x) for x in ref] + [F(1)])
        m.ok(which, all(o.close_mats(a, b, 1e-9, mag) for a, b in zip(got, ref)), '%s is not the system to the internal variables' % which)
    # worst-case gains of the internal variables
    if numpy.abs(numpy.linalg.eigvals(R.AZ)).max() < 0.95:
        ref = resp(sh.ref(), 30, lambda s: s[0] + s[2] + s[3], q, inp_u(sh.size))
        low = [float(sum(abs(x[j][0]) for x in ref)) for j in range(l + n + p)]
        W = numpy.asarray(WCPG_txy(R))
        m.ok('worst-case gains', W.shape == (l + n + p, q) and all(W[j, 0] >= low[j] * (1 - 1e-9) - 1e-12 for j in range(l + n + p)), 'WCPG_txy is below a reachable gain', got=W, low=low)
    untouched(m, R, sh)


def refusals(m, rng, i):
    R, sh = rand_real(rng, size=(rng.randint(0, 2), rng.randint(1, 3), rng.randint(2, 3), rng.randint(1, 2)))
    m.case({'refused': 'inputs of a realization with several outputs', 'size': sh.size})
    m.raises('refusals', ValueError, lambda: R.generate_inputs([1.0] * sh.size[3], 5), 'several outputs')


WORKLOADS = [Workload('internal variables', variables, 150, 3000), Workload('errors', errors, 150, 3000), Workload('quantization error', quantization, 150, 3000),
             Workload('worst inputs', inputs, 150, 3000), Workload('structures', structured, 30, 500), Workload('refusals', refusals, 20, 100)]
EXPECT = {'Hu': 250, 'Hzeta': 250, 'Hepsilon': 200, 'delta SIF': 300, 'quantized': 100, 'error system': 200, 'worst inputs': 300, 'refusals': 100}
