# coding: utf-8
"""C11: every realization implements its filter"""
from fractions import Fraction as F
from itertools import product
import numpy
from rv import oracle as o
from rv.core import Workload, StopCase
from rv.sif import Ref
from rv.props.C06 import rand_sys
from rv.props.C09 import gain, rand_tf, same
from fixif.LTI import dTF, dSS, Filter, random_Filter, Butter
from fixif.SIF import Realization
from fixif import Structures as St
from fixif.Structures.Structure import Structure, iterStructuresAndOptions, makeARealization, iterAllRealizationsRandomFilter

PROPERTY = 'C11'
RULE = ('random filters (SISO transfer functions of orders 0..7 with delays, unequal lengths and any normalisation, SISO and MIMO state-spaces of 0..7 states, '
        'stable or not, declared stable or not), realized with every structure and every combination of its options (and random gammas, Deltas); each realization is '
        'executed step by step in rational arithmetic from its J..S matrices over more samples than states and compared with the impulse response of the filter; '
        'the structures proposed are compared with the documented acceptance rules')
ASSUMPTIONS = ['poles of moderate modulus (norm of A below 0.9 for the stable ones), so that the double computations of the structures are accurate to 1e-6',
               'LWDF (matlab) and balanced state-space (slycot) structures are not installed here', 'stable filters are declared so truthfully']

EXPECTED = {
    'DFI': ({'nbSum': (1, 2), 'transposed': (False, True)}, lambda f, o_: f['siso'] and f['n'] > 0),
    'DFII': ({'transposed': (False, True)}, lambda f, o_: f['siso'] and f['n'] > 0),
    'dSS': ({'form': (None, 'ctrl', 'obs')}, lambda f, o_: o_['form'] is None or f['siso']),
    'rhoDFII': ({'transposed': (True, False), 'equiv_dSS': (False, True), 'scaling': (None, 'l2', 'l2-relaxed')}, lambda f, o_: f['siso'] and f['stable'] and f['n'] > 0),
    'LGS': ({'transposed': (False, True)}, lambda f, o_: f['siso'] and f['stable'] and f['n'] > 1),
    'LCW': ({'transposed': (False, True)}, lambda f, o_: f['siso'] and f['stable'] and f['n'] > 1),
}


def short(st):
    """the short name of a structure"""
    return next((k for k in EXPECTED if Structure.getFromName(k) is st), st.name)


# accuracy of the computation of the coefficients
TOL = {'user': 1e-8, 'DFI': 1e-13, 'DFII': 1e-13, 'dSS': 1e-13, 'rhoDFII': 1e-6, 'LGS': 1e-5, 'LCW': 1e-5}


def rand_filter(rng, kind=None):
    """-> (filter, description, exact impulse response function, accuracy of dTF)"""
    kind = kind or rng.choice(['tf', 'tf', 'tf', 'siso', 'mimo', 'fir'])
    stable = rng.random() < 0.8
    if kind in ('tf', 'fir'):
        num, den = rand_tf(rng)
        if kind == 'fir':
            den = [den[0]] + ([F(0)] * rng.randint(0, 3))
            if len(num) < 2 and len(den) < 2:
                num = num + [F(1)]
        n = max(len(num), len(den)) - 1
        f = Filter(num=[o.todouble(x) for x in num], den=[o.todouble(x) for x in den], stable=stable)
        return f, {'kind': kind, 'n': n, 'p': 1, 'q': 1, 'siso': True, 'stable': stable, 'num': [float(x) for x in num], 'den': [float(x) for x in den]}, \
            lambda N: [[[h]] for h in o.tf_impulse(num, den, N)]
    n = 0 if rng.random() < 0.06 else rng.randint(1, 6)
    p, q = (1, 1) if kind == 'siso' else (rng.randint(1, 4), rng.randint(1, 4))
    M = rand_sys(rng, n, p, q)
    g, h = gain(rng), gain(rng)
    M = (o.rand_stable(rng, n, 5, 0.8), [[x * g for x in r] for r in M[1]], [[x * h for x in r] for r in M[2]], [[x * g * h for x in r] for r in M[3]])
    f = Filter(ss=dSS(*[o.npmat(x, c) for x, c in zip(M, (n, q, n, q))]), stable=stable)
    return f, {'kind': kind, 'n': n, 'p': p, 'q': q, 'siso': p == q == 1, 'stable': stable, 'A': o.sbm(M[0]), 'B': o.sbm(M[1]), 'C': o.sbm(M[2]), 'D': o.sbm(M[3])}, \
        lambda N: o.impulse(*M, N)


def flat(h):
    return [v for M in h for r in M for v in r]


def combos(name):
    opt = EXPECTED[name][0]
    return [dict(zip(opt, x)) for x in product(*opt.values())]


def wanted(d):
    return [(name, tuple(sorted(c.items(), key=str))) for name in EXPECTED for c in combos(name) if EXPECTED[name][1](d, c)]


def judge(m, R, d, href, name, opts, f):
    """the realization implements the filter"""
    m.ok('sizes', (R.p, R.q) == (d['p'], d['q']) and R.filter is f and R.size == (R.l, R.n, R.p, R.q), '%s: sizes or filter of the realization are wrong' % name, opts=opts, size=R.size)
    J = o.fmat(R.J)
    if not m.ok('J unit lower triangular', all(J[i][j] == (1 if i == j else 0) for i in range(R.l) for j in range(i, R.l)), '%s: J is not lower triangular with a unit diagonal' % name, opts=opts, J=J):
        return
    N = min(max(R.n, d['n']) + d['n'] + 4, 24)
    ref = flat(href(N))
    got = flat(Ref.of(R).impulse(N, prec=200))
    tol = TOL[name]
    if (d['kind'] not in ('tf', 'fir') and not (name == 'dSS' and opts.get('form') is None)) or opts.get('form') in ('ctrl', 'obs'):
        tol = max(tol, 1e-8)
    m.ok('impulse response', same(got, ref, tol), '%s%r does not implement its filter' % (name, opts), got=[float(x) for x in got[:12]], expected=[float(x) for x in ref[:12]])
    # the derived state-space view is that of the realization
    got2 = flat(o.impulse(*[o.fmat(x) for x in (R.dSS.A, R.dSS.B, R.dSS.C, R.dSS.D)], N))
    m.ok('equivalent state-space', same(got2, ref, max(tol, 1e-6)), '%s%r: the equivalent state-space does not implement the filter' % (name, opts))
    shape(m, R, d, name, opts)


def shape(m, R, d, name, opts):
    """what the options are for"""
    n = d['n']
    if name == 'DFI':
        m.ok('structure', (R.l, R.n) == (opts['nbSum'], 2 * n), 'DFI: number of sums or of states', opts=opts, size=R.size)
        if not opts['transposed']:
            P = o.fmat(R.P)
            m.ok('structure', all(P[i][j] == 0 for i in range(2 * n) for j in range(i)), 'DFI: P is not upper triangular', P=P)
    elif name == 'DFII':
        m.ok('structure', (R.l, R.n) == (1, n), 'DFII: number of sums or of states', opts=opts, size=R.size)
    elif name == 'dSS':
        m.ok('structure', (R.l, R.n) == (0, n), 'state-space: sizes', opts=opts, size=R.size)
    elif name == 'rhoDFII':
        m.ok('structure', R.n == n and (R.l == 0) == bool(opts['equiv_dSS']), 'rhoDFII: sizes', opts=opts, size=R.size)
    elif name != 'user':
        m.ok('structure', R.n == n and R.l % n == 0, 'lattice: sizes', opts=opts, size=R.size)


def every(m, rng, i):
    """all the realizations of a filter, through the enumeration of the filter"""
    f, d, href = rand_filter(rng)
    want = wanted(d)
    m.case(dict(d, realizations=len(want)), nontrivial=any(flat(href(8))))
    prop = [(short(st), tuple(sorted(op.items(), key=str))) for st, op in iterStructuresAndOptions(f)]
    m.ok('structures proposed', sorted(map(str, prop)) == sorted(map(str, want)), 'the structures proposed are not those that accept the filter',
         missing=[x for x in want if x not in prop], extra=[x for x in prop if x not in want], twice=len(prop) - len(set(prop)))
    for st in Structure.iterAllStructures():
        if short(st) in EXPECTED:
            for c in combos(short(st)):
                acc = EXPECTED[short(st)][1](d, c)
                m.ok('acceptance', bool(st.canAcceptFilter(f, **c)) is bool(acc), '%s.canAcceptFilter is wrong' % short(st), opts=c, expected=acc)
    before = [x.copy() for x in (f.dSS.A, f.dSS.B, f.dSS.C, f.dSS.D)] + ([f.dTF.num.copy(), f.dTF.den.copy()] if d['siso'] else [])
    built = 0
    for (st, op), R in zip(iterStructuresAndOptions(f), f.iterAllRealizations()):
        built += 1
        m.ok('names', R.shortName == short(st) and R.structureName.startswith(st.name) and all('%s:%s' % kv in R.structureName for kv in op.items()) and f.name in R.name,
             'the name of the realization does not tell its structure and options', name=R.name, short=R.shortName, opts=op)
        judge(m, R, d, href, short(st), op, f)
    m.ok('structures proposed', built == len(want) and len(list(f.iterAllRealizations())) == len(want), 'iterAllRealizations does not build all the realizations', built=built, expected=len(want))
    after = [f.dSS.A, f.dSS.B, f.dSS.C, f.dSS.D] + ([f.dTF.num, f.dTF.den] if d['siso'] else [])
    m.ok('filter untouched', all(numpy.array_equal(a, b) for a, b in zip(before, after)), 'building the realizations changed the filter')


def single(m, rng, i):
    """one realization, options partly given (default: first value), by name, by call, or by the structure object"""
    name = rng.choice(sorted(EXPECTED))
    f, d, href = rand_filter(rng, rng.choice(['tf', 'tf', 'siso', 'fir']))
    if d['n'] < {'LGS': 2, 'LCW': 2, 'dSS': 0}.get(name, 1):
        return
    opt = EXPECTED[name][0]
    given = {k: rng.choice(v) for k, v in opt.items() if rng.random() < 0.6}
    full = {k: given.get(k, v[0]) for k, v in opt.items()}
    how = rng.choice(['name', 'call', 'make'])
    st = Structure.getFromName(name)
    m.case(dict(d, structure=name, given=given, how=how), nontrivial=any(flat(href(8))))
    m.ok('options', st.options == opt, 'the options of %s changed' % name, got=st.options) if name in EXPECTED else None
    R = makeARealization(f, name, **given) if how == 'name' else st(f, **given) if how == 'call' else st.makeRealization(f, **given)
    judge(m, R, d, href, name, full, f)
    if full.get('transposed') in (True, False) and name in ('DFI', 'DFII'):
        # the transposed realization has the transposed sizes: inputs of the states <-> outputs
        nz = lambda X: numpy.count_nonzero(X)
        if name == 'DFI':
            m.ok('structure', (nz(R.S), nz(R.R if not full['transposed'] else R.Q)) == (0, 0), 'DFI: unexpected direct terms', Q=R.Q, R=R.R, S=R.S)
        else:
            m.ok('structure', nz(R.S) == 0 and nz(R.Q if not full['transposed'] else R.R) == 0, 'DFII: unexpected direct terms', Q=R.Q, R=R.R, S=R.S)


def rho(m, rng, i):
    """the free parameters and the scalings of the rho direct form"""
    f, d, href = rand_filter(rng, rng.choice(['tf', 'siso', 'tf']))
    n = d['n']
    if n == 0:
        raise StopCase()
    gam = [rng.choice([F(1), F(0), F(rng.randint(-12, 12), 16)]) for _ in range(n)] if rng.random() < 0.8 else None
    Del = [F(2) ** rng.randint(-3, 1) if rng.random() < 0.7 else F(rng.randint(1, 24), 8) for _ in range(n)] if rng.random() < 0.5 else None
    k = rng.randrange(8)
    if k == 0:
        # special values, or values that are nearly special
        Del = [1 + rng.choice([-1, 0, 1]) * F(1, 2 ** rng.randint(5, 9)) for _ in range(n)]
    elif k == 1:
        Del = [F(1)] * n
    elif k == 2:
        Del = [rng.choice([F(1, 2), F(1), F(1) + F(1, 256)])] * n
    if rng.randrange(5) == 0:
        gam = [rng.choice([0, 1, -1]) + rng.choice([-1, 0, 1]) * F(1, 2 ** rng.randint(5, 9)) for _ in range(n)]
    opts = {'transposed': rng.random() < 0.5, 'equiv_dSS': rng.random() < 0.4, 'scaling': rng.choice([None, 'l2', 'l2-relaxed'])}
    kw = dict(opts)
    fm = rng.choice([list, numpy.array, numpy.matrix])
    if gam is not None:
        kw['gamma'] = fm([float(x) for x in gam])
    if Del is not None:
        kw['Delta'] = numpy.matrix([float(x) for x in Del])
    m.case(dict(d, gamma=gam and [float(x) for x in gam], Delta=Del and [float(x) for x in Del], opts=opts), nontrivial=any(flat(href(8))))
    R = St.rhoDFII(f, **kw)
    judge(m, R, d, href, 'rhoDFII', opts, f)
    m.seen('rho:' + ('Delta given' if Del is not None else str(opts['scaling'])))
    h = [abs(x) for x in flat(href(16))]
    if Del is None and opts['scaling'] == 'l2' and opts['transposed'] and max(h[1:]) > F(1e-9) * h[0]:
        # (only rounding errors excite the states of a constant gain)
        # l2-scaling: white noise of unit variance at the input gives unit variance states (those that are excited)
        A, B, _, _ = [o.fmat(x) for x in (R.AZ, R.BZ, R.CZ, R.DZ)]
        var = [0.0] * n
        X, An = numpy.array(o.npmat(B), dtype=float), numpy.array(o.npmat(A), dtype=float)
        for _ in range(4000):
            var = var + (X[:, 0] ** 2)
            X = An.dot(X)
        m.ok('l2-scaling', all(abs(v - 1) < 1e-5 or v < 1e-9 for v in var), 'the states of the l2-scaled rhoDFII do not have a unit variance', var=list(map(float, var)))
    if opts['equiv_dSS'] is False and R.l == n and n > 1:
        # the Deltas are on the diagonal between the states and the intermediate variables
        X = o.fmat(R.M if opts['transposed'] else R.K)
        D = [X[k][k] for k in range(n)]
        if Del is not None:
            m.ok('Deltas', D == Del, 'rhoDFII: the Deltas are not those given', got=D)
        elif opts['scaling'] == 'l2-relaxed':
            m.ok('Deltas', all(x > 0 and (x.numerator & (x.numerator - 1)) == 0 == (x.denominator & (x.denominator - 1)) for x in D), 'relaxed scaling: the Deltas are not powers of two', got=D)
    if opts['equiv_dSS'] is False and gam is not None:
        P = o.fmat(R.P)
        m.ok('gammas', [P[k][k] for k in range(n)] == gam, 'rhoDFII: the gammas are not those given', got=[P[k][k] for k in range(n)])


def random_filters(m, rng, i):
    """filters of the random generators (dense, badly scaled) and Butterworth filters"""
    seed = rng.randrange(10 ** 6)
    if rng.random() < 0.7:
        n, p, q = rng.randint(2, 7), rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
        f = random_Filter(n, p, q, seed=seed)
    else:
        n, p, q = rng.randint(2, 6), 1, 1
        f = Butter(n, rng.choice([0.2, 0.3, 0.6]), rng.choice(['lowpass', 'highpass'])) if rng.random() < 0.7 else Butter(n, [0.3, 0.7], rng.choice(['bandpass', 'bandstop']))
        n = f.order
    S = f.dSS
    M = [o.fmat(x) for x in (S.A, S.B, S.C, S.D)]
    d = {'kind': 'siso', 'n': S.n, 'p': p, 'q': q, 'siso': p == q == 1, 'stable': bool(f.isStable())}
    m.case(dict(d, name=f.name), key=(f.name, seed))
    # (conditioning: only the well conditioned ones are judged on their responses)
    eig = numpy.abs(numpy.linalg.eigvals(S.A))
    m.ok('acceptance', len(list(iterStructuresAndOptions(f))) == len(wanted(d)), 'the structures proposed are not those that accept the filter')
    N = 16
    ref = flat(o.impulse(*M, N))
    for (st, op), R in zip(iterStructuresAndOptions(f), f.iterAllRealizations()):
        got = flat(Ref.of(R).impulse(N, prec=200))
        exact = short(st) == 'dSS' and op['form'] is None
        if not exact and eig.max() > 0.97:
            m.note('badly conditioned')
            continue
        m.ok('random filter', same(got, ref, 1e-30 if exact else 1e-3), '%s%r does not implement the filter' % (short(st), op), got=[float(x) for x in got[:8]], expected=[float(x) for x in ref[:8]])


def generator(m, rng, i):
    """iterAllRealizationsRandomFilter"""
    seed = rng.randrange(10 ** 6)
    ft = rng.choice(['SISO', 'MIMO', 'MISO', 'SIMO'])
    number = rng.randint(1, 3)
    numpy.random.seed(seed)
    n0 = rng.randint(2, 5)
    Rs = list(iterAllRealizationsRandomFilter(number, n=(n0, n0 + 1), p=(2, 3), q=(2, 3), ftype=ft))
    m.case({'random filters': number, 'ftype': ft, 'seed': seed}, key=(seed, ft))
    fs = []
    for R in Rs:
        if not any(R.filter is g for g in fs):
            fs.append(R.filter)
    m.ok('generator', len(fs) == number, 'not the number of filters asked', got=len(fs))
    m.ok('generator', len(Rs) == number * len(wanted({'siso': ft == 'SISO', 'stable': True, 'n': n0})), 'not all the realizations of the random filters', got=len(Rs))


def refusals(m, rng, i):
    f, d, href = rand_filter(rng, 'tf')
    while d['n'] == 0:
        f, d, href = rand_filter(rng, 'tf')
    mimo = Filter(ss=dSS(*[o.npmat(x) for x in rand_sys(rng, 3, 2, 2)]), stable=True)
    m.case({'refused': 'structure', 'n': d['n']})
    m.raises('refusals', ValueError, lambda: makeARealization(f, rng.choice(['DirectForms', 'dfi', '', 'Direct Form I', 'LWDF2'])), 'unknown structure')
    m.raises('refusals', ValueError, lambda: Structure.getFromName('rho'), 'unknown structure')
    m.raises('refusals', ValueError, lambda: St.DFI(f, nbSum=rng.choice([0, 3, -1, 7])), 'DFI: number of sums')
    m.raises('refusals', ValueError, lambda: St.State_Space(f, form=rng.choice(['ctr', 'observer', '', 'Ctrl'])), 'unknown form')
    m.raises('refusals', ValueError, lambda: St.rhoDFII(f, scaling=rng.choice(['l1', 'L2', 'relaxed'])), 'unknown scaling')
    m.raises('refusals', ValueError, lambda: St.DFI(mimo), 'DFI of a MIMO filter')
    m.raises('refusals', ValueError, lambda: St.DFII(mimo), 'DFII of a MIMO filter')
    m.raises('refusals', ValueError, lambda: St.State_Space(mimo, form=rng.choice(['ctrl', 'obs'])), 'canonical form of a MIMO filter')
    m.raises('refusals', ValueError, lambda: St.rhoDFII(mimo), 'rhoDFII of a MIMO filter')


def custom(m, rng, i):
    """a structure of the user, with or without options, is used as the other ones (and only for the filters it accepts)"""
    f, d, href = rand_filter(rng)
    opt = rng.choice([None, None, {'k': (1, 2, 4)}, {'k': (2, 1), 'sign': (True, False)}])
    mini = rng.randint(0, 4)
    calls = []

    def make(filt, **kw):
        calls.append((filt, dict(kw)))
        S = filt.dSS
        n, p, q = S.n, S.p, S.q
        g = kw.get('k', 1) * (-1 if kw.get('sign') else 1)
        # (the states are multiplied by g)
        return {'JtoS': (numpy.eye(0), numpy.zeros((n, 0)), numpy.zeros((p, 0)), numpy.zeros((0, n)), numpy.zeros((0, q)), S.A, S.B * g, S.C / g, S.D)}

    def accept(filt, **kw):
        return alive[0] and filt.order >= mini and kw.get('k') != 2
    alive = [True]
    name = 'mine%d' % rng.randrange(100)
    m.case(dict(d, structure='user', options=opt, accepted=d['n'] >= mini), nontrivial=any(flat(href(8))))
    try:
        st = Structure(name, 'My structure', make, accept, options=opt)
        m.ok('user structure', Structure.getFromName(name) is st and any(x is st for x in Structure.iterAllStructures()) and st.name == 'My structure' and st.options == opt, 'the structure is not registered')
        all_ = [dict(zip(opt, x)) for x in product(*opt.values())] if opt else [{}]
        good = [c for c in all_ if d['n'] >= mini and c.get('k') != 2]
        prop = [op or {} for s, op in iterStructuresAndOptions(f) if s is st]
        key = lambda c: sorted(map(str, c.items()))
        m.ok('user structure', sorted(prop, key=key) == sorted(good, key=key), 'the structure is not proposed with the options it accepts', got=prop, expected=good)
        Rs = [R for R in f.iterAllRealizations() if R.shortName == name]
        m.ok('user structure', len(Rs) == len(good) and sorted((c for x, c in calls if x is f), key=key) == sorted(good, key=key), 'the realizations of the filter do not use the structure', got=calls, expected=good)
        given = {k: rng.choice(v) for k, v in (opt or {}).items() if rng.random() < 0.5}
        del calls[:]
        R = makeARealization(f, name, **given) if rng.random() < 0.5 else st(f, **given)
        full = {k: given.get(k, v[0]) for k, v in (opt or {}).items()}
        m.ok('user structure', calls == [(f, full)], 'the structure did not receive its options', got=calls, expected=full)
        for X in Rs + [R]:
            judge(m, X, d, href, 'user', {}, f)
    finally:
        # (a structure stays registered: it accepts no filter from now on)
        alive[0] = False


WORKLOADS = [Workload('every realization', every, 150, 2000), Workload('one realization', single, 500, 6000), Workload('rho direct form', rho, 600, 6000),
             Workload('random filters', random_filters, 24, 400), Workload('generator', generator, 8, 60), Workload('structures of the user', custom, 60, 1000), Workload('refusals', refusals, 20, 100)]
EXPECT = {'user structure': 150, 'impulse response': 800, 'structures proposed': 150, 'acceptance': 1000, 'l2-scaling': 5, 'Deltas': 20, 'gammas': 40, 'random filter': 100, 'generator': 16}
