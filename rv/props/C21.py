# coding: utf-8
"""C21: the random generators"""
import re
import numpy
import mpmath
from numpy.random import seed as np_seed
from rv.core import Workload
from fixif.LTI import (dSS, Filter, Butter, Elliptic, iter_random_dSS, random_dSS, iter_random_dTF, random_dTF, random_dTFmp, iter_random_dTFmp, random_dSSmp, iter_random_dSSmp,
                       random_Filter, iter_random_Filter, random_Butter, iter_random_Butter, random_Elliptic, iter_random_Elliptic, random_Gabarit, iter_random_Gabarit)

PROPERTY = 'C21'
RULE = ('every generator, with ranges of orders, inputs, outputs, frequencies, ripples and attenuations (including ranges of a single value), all forms and types, with and without seeds (0 included), numbers 0 to 6; '
        'between two constructions with the same seed the random state is moved by an arbitrary number of other draws and generators; the objects are compared bit by bit; non-trivial with 2 states or coefficients')
ASSUMPTIONS = ['stability judged within 1e-9 on the moduli of the eigenvalues (1e-3 for the chosen-real poles)', 'gains of Butterworth and elliptic filters judged for orders at most 4']
EXPECT = {'sizes': 150, 'stable': 80, 'same seed': 300, 'name rebuilds': 80, 'number': 100, 'parameters': 100, 'cut-off gain': 40, 'invalid name refused': 20, 'invalid sizes refused': 20, 'masks': 40}


def sig(x):
    """a value that identifies an object (bit by bit)"""
    if isinstance(x, Filter):
        extra = [(k, sig(getattr(x, k))) for k in ('n', 'Wn', 'btype', 'etype', 'rp', 'rs') if hasattr(x, k)]
        return ('F', type(x).__name__, x.name, x.isStable(), (sig(x.dTF), sig(x.dSS)) if x.isSISO() else sig(x.dSS), tuple(extra))
    if isinstance(x, (numpy.ndarray, numpy.matrix)):
        return (x.shape, numpy.asarray(x, dtype=float).tobytes())
    if isinstance(x, mpmath.matrix):
        return (x.rows, x.cols, tuple(str(v._mpf_) for v in x))
    if hasattr(x, 'num'):
        return ('TF', type(x).__name__, sig(x.num), sig(x.den))
    if hasattr(x, 'A'):
        return ('SS', type(x).__name__, sig(x.A), sig(x.B), sig(x.C), sig(x.D))
    if hasattr(x, 'bands'):
        return ('G', x.seed, tuple(repr(b) for b in x.bands))
    if isinstance(x, (list, tuple)):
        return tuple(sig(v) for v in x)
    return x if not isinstance(x, (float, numpy.floating)) else float(x).hex()


def perturb(rng):
    """moves the random state"""
    for _ in range(rng.randint(0, 4)):
        k = rng.randrange(6)
        if k == 0:
            numpy.random.rand(rng.randint(1, 50))
        elif k == 1:
            random_dSS(rng.randint(1, 4), 1, 2)
        elif k == 2:
            random_Butter(seed=rng.choice([None, 0, 5]))
        elif k == 3:
            numpy.random.randn(rng.randint(1, 9))     # (keeps a cached gaussian number)
        elif k == 4:
            random_Gabarit(seed=rng.choice([None, 3]))
        else:
            np_seed(rng.randrange(2 ** 32))


def span(rng, lo, hi):
    """(mini included, maxi excluded)"""
    a = rng.randint(lo, hi - 1)
    return (a, a + 1) if rng.random() < 0.3 else (a, rng.randint(a + 1, hi))


def rho(A):
    return max(abs(numpy.linalg.eigvals(numpy.asarray(A, dtype=float))))


def same(m, a, b, what, **kw):
    m.ok('same seed', sig(a) == sig(b), what, first=str(a)[:300], second=str(b)[:300], **kw)


def state_spaces(m, rng, i):
    n, p, q = rng.randint(1, 12), rng.randint(1, 5), rng.randint(1, 5)
    if rng.random() < 0.1:
        n, p, q = rng.choice([(20, 1, 7), (30, 3, 1), (3, 12, 9), (1, 1, 15), (40, 1, 1)])
    s = rng.choice([0, 1, rng.randrange(2 ** 32)])
    kw = {}
    if rng.random() < 0.6:
        kw = dict(pRepeat=rng.choice([0, 0.01, 0.5, 1]), pReal=rng.choice([0, 0.5, 1]), pBCmask=rng.choice([0.3, 0.9, 1]), pDmask=rng.choice([0.8, 1]), pDzero=rng.choice([0.5, 0]))
    f, what = (random_dSS, dSS) if i % 2 == 0 else (random_dSSmp, None)
    m.case({f.__name__: [n, p, q], 'seed': s, 'kw': kw}, nontrivial=n >= 2)
    np_seed(s)
    S = f(n, p, q, **kw)
    m.ok('sizes', (S.n, S.p, S.q) == (n, p, q), 'the random state-space has not the sizes asked for', got=[S.n, S.p, S.q], expected=[n, p, q])
    m.ok('kind', isinstance(S, dSS) if what else type(S).__name__ == 'dSSmp', 'not the kind of system asked for', got=type(S))
    A = numpy.array([[float(S.A[a, b]) for b in range(n)] for a in range(n)])
    B = numpy.array([[float(S.B[a, b]) for b in range(q)] for a in range(n)])
    C = numpy.array([[float(S.C[a, b]) for b in range(n)] for a in range(p)])
    # a repeated pole moves as the square (or a larger) root of the rounding errors
    tol = 1e-9 if not kw.get('pRepeat') else 1e-3
    m.ok('stable', rho(A) < 1 + tol * max(1., numpy.linalg.norm(A)), 'the random state-space is not stable', rho=rho(A))
    m.ok('masks', B.any() and C.any(), 'the random state-space has no input or no output')
    if kw.get('pBCmask') == 1:
        m.ok('masks', bool(B.all() and C.all()), 'elements of B or C are masked out (with pBCmask=1)')
    if kw and kw['pRepeat'] == 0:
        ev = numpy.linalg.eigvals(A)
        if kw['pReal'] == 1:
            m.ok('real poles', max(abs(ev.imag)) < 1e-3 * max(1., numpy.linalg.norm(A)), 'the poles are not real (with pReal=1)', poles=ev)
        elif kw['pReal'] == 0:
            m.ok('complex poles', sum(1 for x in ev if x.imag == 0) <= n % 2 or min(abs(ev.imag)) < 1e-3 * max(1., numpy.linalg.norm(A)), 'the poles are not complex (with pReal=0)', poles=ev)
    if kw and kw['pRepeat'] == 1 and n >= 3:
        # every pole but the first ones and the last one is a repetition of the previous one (or pair)
        ev = list(numpy.linalg.eigvals(A))
        distinct = []
        eps = 1e-6 * max(1., numpy.linalg.norm(A))
        for x in ev:
            if not any(abs(x - y) < eps for y in distinct):
                distinct.append(x)
        m.ok('repeated poles', len(distinct) <= 3, 'the poles are not repeated (with pRepeat=1)', poles=ev)
    perturb(rng)
    np_seed(s)
    same(m, S, f(n, p, q, **kw), 'the same seed does not build the same state-space')
    if i % 5 == 0:
        bad = rng.choice([(0, 1, 1), (1, 0, 1), (1, 1, 0), (-1, 2, 2), (2, -3, 1), (2, 1, -2), (1.5, 1, 1), (2, 1.5, 1), (2, 1, 0.5)])
        m.raises('invalid sizes refused', (ValueError,), lambda: f(*bad), 'sizes that are not positive integers should be refused')


def dmask(m, rng, i):
    """the documented masks of D"""
    n, p, q = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 4)
    np_seed(rng.randrange(2 ** 32))
    m.case({'mask of D': [n, p, q, i]}, nontrivial=n >= 2)
    S = random_dSS(n, p, q, pDzero=1)
    m.ok('mask of D', not S.D.any(), 'D is not null with pDzero=1', D=S.D)


def iterators_ss(m, rng, i):
    N = rng.choice([0, 1, 2, 3, 6])
    n, p, q = span(rng, 1, 10), span(rng, 1, 5), span(rng, 1, 5)
    mp = i % 2 == 1
    f = iter_random_dSSmp if mp else iter_random_dSS
    stable = rng.random() < 0.6
    if not mp and rng.random() < 0.3:
        p = rng.choice([1, p])
        q = rng.choice([1, q])
    kw = dict(n=n, p=p, q=q)
    for k in 'npq':
        if rng.random() < 0.15:
            del kw[k]
    if not stable or rng.random() < 0.5:
        kw['stable'] = stable
    probs = {}
    if rng.random() < 0.5:
        probs = dict(pRepeat=rng.choice([0, 0.1]), pReal=rng.choice([0, 1]), pBCmask=rng.choice([0.2, 1]), pDmask=rng.choice([0.3, 1]), pDzero=rng.choice([0, 0.5]))
        kw.update(probs)
    s = rng.choice([0, rng.randrange(2 ** 32)])
    m.case({f.__name__: kw, 'number': N, 'seed': s}, nontrivial=N > 0)
    np_seed(s)
    L = list(f(N, **kw))
    m.ok('number', len(L) == N, 'not the number of state-spaces asked for', got=len(L), expected=N)
    R = {'n': (5, 10), 'p': (1, 5), 'q': (1, 5)}
    R.update({k: (1, 2) if v == 1 else v for k, v in kw.items() if k in R})
    for S in L:
        m.ok('sizes', all(R[k][0] <= getattr(S, k) < R[k][1] for k in R), 'a random state-space has sizes out of the ranges', got=[S.n, S.p, S.q], expected=R)
        m.ok('kind', type(S).__name__ == ('dSSmp' if mp else 'dSS'), 'not the kind of system asked for', got=type(S))
        if stable:
            A = numpy.array([[float(S.A[a, b]) for b in range(S.n)] for a in range(S.n)])
            m.ok('stable', rho(A) < 1 + 1e-3, 'a random state-space is not stable', rho=rho(A))
            if probs:
                B = numpy.array([[float(S.B[a, b]) for b in range(S.q)] for a in range(S.n)])
                C = numpy.array([[float(S.C[a, b]) for b in range(S.n)] for a in range(S.p)])
                if probs['pBCmask'] == 1:
                    m.ok('iterator options', bool(B.all() and C.all()), 'elements of B or C are masked out (with pBCmask=1)')
                elif B.size + C.size > 60:
                    m.ok('iterator options', (B == 0).sum() + (C == 0).sum() > 0, 'no element of B or C is masked out (with pBCmask=0.2)')
                if probs['pRepeat'] == 0:
                    ev = numpy.linalg.eigvals(A)
                    eps = 1e-3 * max(1., numpy.linalg.norm(A))
                    real = sum(1 for x in ev if abs(x.imag) < eps)
                    close = any(abs(x - y) < 10 * eps for a, x in enumerate(ev) for y in ev[:a])
                    m.ok('iterator options', real == S.n if probs['pReal'] == 1 else (real <= S.n % 2 or close or min(abs(ev.imag)) < 10 * eps), 'the poles do not follow pReal', poles=ev, options=probs)
    perturb(rng)
    np_seed(s)
    same(m, L, list(f(N, **kw)), 'the same seed does not build the same state-spaces')


def transfer_functions(m, rng, i):
    mp = i % 2 == 1
    f, g = (random_dTFmp, iter_random_dTFmp) if mp else (random_dTF, iter_random_dTF)
    o = span(rng, 1, 14)
    if rng.random() < 0.3:
        o = (o[0], o[0])
    s = rng.choice([0, rng.randrange(2 ** 32)])
    N = rng.choice([0, 1, 3, 5])
    default = rng.random() < 0.15
    m.case({f.__name__: o, 'seed': s, 'number': N}, nontrivial=o[0] >= 2)
    args = () if default else (o,)
    lo, hi = (5, 10) if default else o
    np_seed(s)
    H = f(*args)
    L = list(g(N, *args))
    m.ok('number', len(L) == N, 'not the number of transfer functions asked for', got=len(L), expected=N)
    for X in [H] + L:
        ok = lo <= X.order < hi or X.order == lo
        nn, nd = (len(X.num), len(X.den)) if mp else (X.num.size, X.den.size)
        m.ok('sizes', ok and nn == nd == X.order + 1, 'the random transfer function has not the order asked for', got=[X.order, nn, nd], expected=[lo, hi])
        m.ok('kind', type(X).__name__ == ('dTFmp' if mp else 'dTF'), 'not the kind of system asked for', got=type(X))
    perturb(rng)
    np_seed(s)
    same(m, H, f(*args), 'the same seed does not build the same transfer function')
    same(m, L, list(g(N, *args)), 'the same seed does not build the same transfer functions')


BAD = ['RandomFilter', 'RandomFilter-', 'RandomFilter-1/2-3', 'RandomFilter-1/2/3', 'RandomFilter-a/2/3-4', 'RandomFilter-1/2/3-', 'randomfilter-1/2/3-4', 'Butterworth-random-12', 'RandomFilter-1.5/2/3-4', 'RandomFilter 1/2/3-4',
       'RandomFilter--1/2/3-4', 'x', 'RandomFilter-(5,10)/(1,2)/(1,10)-12345678']


def filters(m, rng, i):
    n, p, q = rng.randint(1, 11), rng.randint(1, 5), rng.randint(1, 5)
    s = rng.choice([0, 1, rng.randrange(10 ** 9), rng.randrange(2 ** 32)])
    kw = dict(n=n, p=p, q=q)
    for k in 'npq':
        if rng.random() < 0.1:
            del kw[k]
    m.case({'random_Filter': kw, 'seed': s}, nontrivial=n >= 2)
    f = random_Filter(seed=s, **kw)
    exp = [kw.get('n', 10), kw.get('p', 5), kw.get('q', 5)]
    m.ok('sizes', [f.order, f.p, f.q] == exp and [f.dSS.n, f.dSS.p, f.dSS.q] == exp and bool(f.isSISO()) == (exp[1] == exp[2] == 1), 'the random filter has not the sizes asked for', got=[f.order, f.p, f.q], expected=exp)
    m.ok('stable', f.isStable() and rho(f.dSS.A) < 1 + 1e-3, 'the random filter is not (known as) stable')
    m.ok('name', f.name == 'RandomFilter-%d/%d/%d-%d' % (tuple(exp) + (s,)) and repr(f) == f.name, 'the name does not recall the filter', got=f.name)
    perturb(rng)
    same(m, f, random_Filter(seed=s, **kw), 'the same seed does not build the same filter')
    perturb(rng)
    g = random_Filter(name=f.name)
    m.ok('name rebuilds', sig(g) == sig(f), 'the name does not rebuild the filter', name=f.name)
    # without seed: anonymous, and driven by the state of the generator
    np_seed(s)
    a = random_Filter(**kw)
    m.ok('name', a.name == 'RandomFilter', 'an unseeded filter is not anonymous', got=a.name)
    b = random_Filter(**kw)
    m.ok('draws', sig(a) != sig(b), 'two successive unseeded filters are the same')
    bad = rng.choice(BAD)
    m.raises('invalid name refused', (ValueError,), lambda: random_Filter(name=bad), 'the name %r does not describe a filter' % bad)


def iter_filters(m, rng, i):
    N = rng.choice([0, 1, 2, 4, 6])
    ft = rng.choice(['SISO', 'SIMO', 'MISO', 'MIMO', 'all'])
    n, p, q = span(rng, 1, 9), span(rng, 1, 5), span(rng, 1, 5)
    seeded = rng.random() < 0.7
    kw = dict(n=n, p=p, q=q, ftype=ft)
    if ft == 'all' and rng.random() < 0.5:
        del kw['ftype']
    if not seeded:
        kw['seeded'] = False
    s = rng.choice([0, rng.randrange(2 ** 32)])
    m.case({'iter_random_Filter': kw, 'number': N, 'seed': s}, nontrivial=N > 0)
    np_seed(s)
    L = list(iter_random_Filter(N, **kw))
    m.ok('number', len(L) == N, 'not the number of filters asked for', got=len(L), expected=N)
    kinds = {'SISO': ((1, 2), (1, 2)), 'SIMO': (p, (1, 2)), 'MISO': ((1, 2), q), 'MIMO': (p, q)}
    for f in L:
        ok = n[0] <= f.order < n[1] and any(a[0] <= f.p < a[1] and b[0] <= f.q < b[1] for k, (a, b) in kinds.items() if ft in (k, 'all'))
        m.ok('sizes', ok, 'a random filter has sizes out of the ranges', got=[f.order, f.p, f.q], expected=kw)
        m.ok('stable', f.isStable() and rho(f.dSS.A) < 1 + 1e-3, 'a random filter is not (known as) stable')
        if seeded:
            perturb(rng)
            m.ok('name rebuilds', sig(random_Filter(name=f.name)) == sig(f), 'the name does not rebuild the filter', name=f.name)
        else:
            m.ok('name', f.name == 'RandomFilter', 'an unseeded filter is not anonymous', got=f.name)
    if len(L) > 1:
        m.ok('draws', len(set(sig(f) for f in L)) == len(L), 'the same filter is generated several times')
    perturb(rng)
    np_seed(s)
    same(m, L, list(iter_random_Filter(N, **kw)), 'the same seed does not build the same filters')


FORMS = ('lowpass', 'highpass', 'bandpass', 'bandstop')


def gain(f, w):
    b, a = numpy.asarray(f.dTF.num)[0], numpy.asarray(f.dTF.den)[0]
    z = numpy.exp(-1j * numpy.pi * w)
    return abs(numpy.polyval(b[::-1], z) / numpy.polyval(a[::-1], z))


def classical(m, rng, i):
    """Butterworth and elliptic filters"""
    ell = i % 2 == 1
    form = rng.choice(FORMS + (None,))
    low = rng.random() < 0.6
    n = span(rng, 1, 5) if low else span(rng, 1, 11)
    Wc = rng.choice([(0.1, 0.8), (0.2, 0.4), (0.3, 0.3)])
    W1, W2 = rng.choice([((0.1, 0.5), (0.5, 0.8)), ((0.1, 0.2), (0.3, 0.4)), ((0.1, 0.5), (0.3, 0.8)), ((0.2, 0.6), (0.25, 0.5)), ((0.2, 0.2), (0.6, 0.6))])
    kw = dict(n=n, Wc=Wc, W1=W1, W2=W2, form=form)
    if ell:
        lo = rng.choice([0.1, 1, 3])
        kw['rp'] = rng.choice([(lo, lo), (lo, lo + 2)])
        kw['rs'] = rng.choice([(30, 80), (40, 40), (20, 21)])
        if rng.random() < 0.3 and W2[0] - W1[1] > 0.09:
            kw['quant'] = rng.choice([10, 16, 100])
    else:
        kw['onlyEven'] = rng.random() < 0.5
    for k in ('n', 'Wc', 'W1', 'W2', 'form'):
        if rng.random() < 0.05 and k not in ('W1', 'W2'):
            del kw[k]
    if 'onlyEven' in kw and kw['onlyEven'] and rng.random() < 0.5:
        del kw['onlyEven']
    f0, it, cls, pre = (random_Elliptic, iter_random_Elliptic, Elliptic, 'Elliptic-random') if ell else (random_Butter, iter_random_Butter, Butter, 'Butterworth-random')
    s = rng.choice([0, 1, rng.randrange(10 ** 9)])
    N = rng.choice([0, 1, 3, 5])
    seeded = rng.random() < 0.7
    m.case({f0.__name__: kw, 'seed': s, 'number': N}, nontrivial=True)
    f = f0(seed=s, **kw)
    m.ok('name', f.name == '%s-%d' % (pre, s), 'the name does not recall the seed', got=f.name)
    np_seed(s)
    L = list(it(N, seeded=seeded, **kw) if not seeded or rng.random() < 0.5 else it(N, **kw))
    m.ok('number', len(L) == N, 'not the number of filters asked for', got=len(L), expected=N)
    R = dict(n=(5, 10), Wc=(0.1, 0.8), form=None, onlyEven=True)
    R.update(kw)
    inside = lambda x, r, quant=None: r[0] - 1e-12 - (0.5 / quant if quant else 0) <= x <= r[1] + 1e-12 + (0.5 / quant if quant else 0)
    for g in [f] + L:
        t = g.etype if ell else g.btype
        quant = kw.get('quant')
        ok = isinstance(g, cls) and bool(g.isButter()) == (not ell) and t in FORMS and (R['form'] is None or t == R['form']) and g.isStable()
        if t in ('bandpass', 'bandstop'):
            ok = ok and len(g.Wn) == 2 and g.Wn[0] <= g.Wn[1] and inside(g.Wn[0], W1, quant) and inside(g.Wn[1], W2, quant)
            ok = ok and (g.Wn[0] < g.Wn[1] or quant)
        else:
            ok = ok and inside(g.Wn, R['Wc'])
        if ell:
            ok = ok and inside(g.rp, kw['rp'], quant) and inside(g.rs, kw['rs'], quant)
            ok = ok and g.details() == {"n": g.n, "ripple passband": g.rp, "attenuation stopband": g.rs, "frequency": g.Wn, "type": g.etype}
            ok = ok and R['n'][0] <= g.n < R['n'][1]
            ok = ok and (not quant or all(abs(x * quant - round(x * quant)) < 1e-6 for x in (g.rp, g.rs)))
        else:
            ok = ok and (R['n'][0] <= g.n < R['n'][1] if not R['onlyEven'] else g.n % 2 == 0 and R['n'][0] <= g.n <= R['n'][1])
        m.ok('parameters', bool(ok), 'the random filter has parameters out of the ranges', got=[g.n, g.Wn, t, getattr(g, 'rp', None), getattr(g, 'rs', None)], expected=kw)
        order = g.n * (2 if t in ('bandpass', 'bandstop') else 1)
        m.ok('sizes', g.order == order and g.p == g.q == 1 and bool(g.isSISO()), 'the filter has not the order asked for', got=g.order, expected=order)
        w = g.Wn if isinstance(g.Wn, list) else [g.Wn]
        if g.n <= 4 and (len(w) == 1 or w[1] - w[0] > 0.05):
            edge = 10 ** (-g.rp / 20.) if ell else 0.5 ** 0.5
            m.ok('cut-off gain', all(abs(gain(g, x) - edge) < 1e-5 for x in w), 'the gain at the cut-off frequency is not the specified one', got=[gain(g, x) for x in w], expected=edge, form=t, n=g.n)
            # pass side and stop side
            inner = 0.5 * (w[0] + w[-1]) if len(w) == 2 else None
            pas, stop = {'lowpass': ([0.01 * w[0]], [0.999]), 'highpass': ([0.999], [0.001]), 'bandpass': ([inner], [0.001, 0.999]), 'bandstop': ([0.001, 0.999], [inner])}[t]
            smax = 10 ** (-g.rs / 20.) if ell else edge
            if ell and (g.n < 2 or t == 'bandstop'):
                stop = []
            m.ok('pass and stop', all(edge - 1e-5 < gain(g, x) < 1 + 1e-5 for x in pas) and all(gain(g, x) < smax * (1 + 1e-4) + 1e-7 for x in stop), 'the filter has not its form', form=t, passed=[gain(g, x) for x in pas], stopped=[gain(g, x) for x in stop], n=g.n, Wn=g.Wn, edge=edge, smax=smax)
    for g in L:
        if seeded:
            r = re.match(re.escape(pre) + r'-(\d+)$', g.name)
            m.ok('name', r is not None, 'the name of a seeded filter does not recall its seed', got=g.name)
            if r:
                perturb(rng)
                m.ok('name rebuilds', sig(f0(seed=int(r.group(1)), **kw)) == sig(g), 'the seed of the name does not rebuild the filter', name=g.name)
        else:
            m.ok('name', g.name == pre, 'an unseeded filter is not anonymous', got=g.name)
    perturb(rng)
    same(m, f, f0(seed=s, **kw), 'the same seed does not build the same filter')
    perturb(rng)
    np_seed(s)
    same(m, L, list(it(N, seeded=seeded, **kw)), 'the same seed does not build the same filters')
    bad = dict(kw, form=rng.choice(['bandpass', 'bandstop']), W1=(0.5, 0.7), W2=rng.choice([(0.1, 0.4), (0.3, 0.5)]))
    m.raises('invalid frequencies refused', (ValueError,), lambda: f0(seed=rng.choice([None, 3]), **bad), 'W2 lower than W1 should be refused')


def template(m, g):
    """a random gabarit is a lowpass template, with the documented ranges"""
    b = g.bands
    ok = g.type == 'lowpass' and len(b) == 2 and b[0].isPassBand and not b[1].isPassBand and 500 <= b[0].Fs < 100000
    if ok:
        ok = b[0].F1 == 0 and 0.005 * b[0].Fs <= b[0].F2 <= 0.45 * b[0].Fs and b[0].F2 <= b[1].F1 <= b[0].Fs / 2. and b[1].F2 in (None, b[0].Fs / 2.)
        gp, gm, gs = b[0].passGains[1], b[0].passGains[0], b[1].stopGain
        gp, gm = max(gp, gm), min(gp, gm)
        ok = ok and -5 <= gp <= 5 and 0.1 - 1e-9 <= gp - gm <= 5 + 1e-9 and min(-80, 2 * gm) <= gs <= max(-80, 2 * gm)
    m.ok('template', bool(ok), 'a random gabarit has not the documented form', bands=[repr(x) for x in b], Fs=b[0].Fs)


def spread(m, rng, i):
    """the random values cover the ranges asked for, and only them"""
    def covers(vals, lo, hi, what):
        w = hi - lo
        m.ok('spread', min(vals) >= lo - 1e-12 and max(vals) <= hi + 1e-12, 'values out of the range: %s' % what, got=[min(vals), max(vals)], expected=[lo, hi])
        m.ok('spread', min(vals) < lo + 0.15 * w and max(vals) > hi - 0.15 * w, 'the range is not covered: %s' % what, got=[min(vals), max(vals)], expected=[lo, hi])
    kind = i % 5
    np_seed(rng.randrange(2 ** 32))
    default = rng.random() < 0.5
    m.case({'spread': kind, 'default': default}, key=[kind, i])
    if kind in (0, 1):
        ell = kind == 1
        it = iter_random_Elliptic if ell else iter_random_Butter
        R = dict(Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8))
        kw = {}
        if not default:
            kw = dict(Wc=(0.2, 0.5), W1=(0.05, 0.3), W2=(0.35, 0.9))
            R.update(kw)
            if rng.random() < 0.5:
                kw['n'] = (2, 4)
        P = dict(rp=(0, 10), rs=(30, 80))
        if ell and not default:
            kw.update(rp=(1, 3), rs=(20, 60))
            P.update(rp=(1, 3), rs=(20, 60))
        if ell and default and rng.random() < 0.5:
            P.update(rp=(10, 50), rs=(10, 50))
            if rng.random() < 0.5:
                kw['n'] = (1, 2)
            # (the ripple cannot be larger than the attenuation: done by hand)
            L = []
            while len(L) < 250:
                try:
                    L.append(random_Elliptic(**kw))
                except ValueError:
                    pass
            P = {}
        else:
            L = list(it(250, seeded=rng.random() < 0.5, **kw))
        t = lambda f: f.etype if ell else f.btype
        one = [f for f in L if t(f) in ('lowpass', 'highpass')]
        two = [f for f in L if t(f) not in ('lowpass', 'highpass')]
        m.ok('all the forms', set(t(f) for f in L) == set(FORMS), 'some forms are never chosen', got=set(t(f) for f in L))
        covers([f.Wn for f in one], *R['Wc'], 'Wc')
        covers([f.Wn[0] for f in two], *R['W1'], 'W1')
        covers([f.Wn[1] for f in two], *R['W2'], 'W2')
        for k in P if ell else ():
            covers([getattr(f, k) for f in L], *P[k], k)
        if 'n' not in kw:
            m.ok('spread', set(f.n for f in L) == (set(range(5, 10)) if ell else {6, 8, 10}), 'the orders do not cover the range', got=set(f.n for f in L))
    elif kind == 2:
        kw = {} if default else dict(n=(2, 5), p=(2, 4), q=(3, 6))
        L = list(iter_random_Filter(200, **kw))
        n, p, q = kw.get('n', (5, 10)), kw.get('p', (1, 5)), kw.get('q', (1, 5))
        m.ok('spread', set(f.order for f in L) == set(range(*n)) and set(f.p for f in L) == set(range(*p)) | {1} and set(f.q for f in L) == set(range(*q)) | {1}, 'the sizes do not cover the ranges', n=set(f.order for f in L), p=set(f.p for f in L), q=set(f.q for f in L))
        if not default:
            m.ok('all the forms', set((f.p == 1, f.q == 1) for f in L) == {(a, b) for a in (False, True) for b in (False, True)}, 'some types of filters are never chosen')
    elif kind == 3:
        kw = {} if default else dict(n=(2, 5), p=(2, 4), q=(3, 6))
        mp = rng.random() < 0.3
        L = list((iter_random_dSSmp if mp else iter_random_dSS)(150, **kw))
        for k, r in dict(dict(n=(5, 10), p=(1, 5), q=(1, 5)), **kw).items():
            m.ok('spread', set(getattr(S, k) for S in L) == set(range(*r)), 'the sizes do not cover the ranges', which=k, got=set(getattr(S, k) for S in L), expected=r)
        if not mp:
            # documented probabilities, within more than six standard deviations
            ev = numpy.concatenate([numpy.linalg.eigvals(S.A) for S in L])
            frac = sum(1 for x in ev if x.imag == 0) / float(ev.size)
            m.ok('proportions', 0.2 < frac < 0.65, 'the proportion of real poles is not the documented one', got=frac)
            mod = abs(ev)
            m.ok('proportions', (mod > 0.9).any() and (mod < 0.1).any() and (ev.real > 0.5).any() and (ev.real < -0.5).any() and (ev.imag > 0.5).any() and (abs(ev.imag[ev.imag != 0]) < 0.1).any(), 'the poles do not cover the unit disc')
            cplx = ev[ev.imag > 1e-9]
            m.ok('proportions', 0.25 < (cplx.real > 0).mean() < 0.75, 'the poles do not cover the unit disc', got=(cplx.real > 0).mean())
            z = sum((S.B == 0).sum() + (S.C == 0).sum() for S in L) / float(sum(S.B.size + S.C.size for S in L))
            m.ok('proportions', 0.05 < z < 0.16, 'the proportion of masked elements is not the documented one', got=z)
            for M in ('B', 'C', 'D'):
                v = numpy.concatenate([numpy.asarray(getattr(S, M)).ravel() for S in L])
                v = v[v != 0]
                m.ok('proportions', abs(v.mean()) < 0.5 and 0.5 < v.std() < 2 and (v > 0).any() and (v < 0).any(), 'the elements are not random', matrix=M)
    else:
        mp = rng.random() < 0.5
        kw = {} if default else dict(order=(2, 7))
        L = list((iter_random_dTFmp if mp else iter_random_dTF)(100, **kw))
        o = kw.get('order', (5, 10))
        m.ok('spread', set(H.order for H in L) == set(range(*o)), 'the orders do not cover the range', got=set(H.order for H in L), expected=o)
        if not mp:
            m.ok('spread', all(numpy.asarray(H.num).all() and numpy.asarray(H.den).all() for H in L), 'null coefficients')


def gabarits(m, rng, i):
    s = rng.choice([0, 1, rng.randrange(2 ** 24)])
    form = rng.choice([None, 'lowpass'])
    m.case({'random_Gabarit': s}, key=[s, form, i])
    g = random_Gabarit(form=form, seed=s)
    m.ok('name', g.seed == s, 'the seed is not recalled by the gabarit')
    template(m, g)
    m.raises('invalid form refused', (ValueError,), lambda: random_Gabarit(form=rng.choice(['low pass', 'lp', '', 'Lowpass', 3]), seed=s), 'an unknown form should be refused')
    perturb(rng)
    same(m, g, random_Gabarit(form=form, seed=s), 'the same seed does not build the same gabarit')
    N = rng.choice([0, 1, 3])
    L = list(iter_random_Gabarit(N, form=form))
    m.ok('number', len(L) == N, 'not the number of gabarits asked for', got=len(L), expected=N)
    for x in L:
        perturb(rng)
        template(m, x)
        m.ok('name rebuilds', x.seed is not None and sig(random_Gabarit(form=form, seed=x.seed)) == sig(x), 'the seed of a gabarit does not rebuild it', seed=x.seed)


WORKLOADS = [
    Workload('state-spaces', state_spaces, quick=360, thorough=8000),
    Workload('D', dmask, quick=5, thorough=50),
    Workload('iter state-spaces', iterators_ss, quick=180, thorough=3000),
    Workload('transfer functions', transfer_functions, quick=180, thorough=3000),
    Workload('filters', filters, quick=240, thorough=5000),
    Workload('iter filters', iter_filters, quick=150, thorough=2400),
    Workload('classical', classical, quick=300, thorough=5000),
    Workload('spread', spread, quick=60, thorough=400),
    Workload('gabarits', gabarits, quick=120, thorough=1600),
]
