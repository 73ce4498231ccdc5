# coding: utf-8
"""C20: gabarits (templates of filters) and the filters designed for them"""
import contextlib
import io
import math
import warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import mpmath
import numpy
import sollya
from rv.core import Workload
from fixif.LTI import Gabarit, dTF, random_Gabarit
from fixif.LTI.Gabarit import Band

PROPERTY = 'C20'
RULE = ('random templates (low-pass, high-pass, band-pass, band-stop and multi-band; normalized frequencies or any sampling frequency; bands given in any order, gains of the pass bands in any order, '
        'pass gains above or below 0 dB), designed with the four classical methods and with margins; the modulus of the designed function is evaluated in 200-bit arithmetic over a grid of each band, '
        'refined around its extrema and its edges; non-trivial with a transfer function of order 2 or more')
ASSUMPTIONS = ['modulus compared within 1e-6 dB', 'designs of order at most 8 (higher orders are limited by the conditioning of scipy\'s coefficients)',
               'check_dTF/findMinimumMargin are run with a numerical stand-in of the sollya procedure, that judges the constraints they send']
EXPECT = {'type': 200, 'gains': 400, 'constraint': 300, 'inside the template': 80, 'margin respected': 20, 'frequency scale': 60, 'refused': 15, 'minimal margin': 8, 'plotted response': 16, 'plotted zones': 30,
          'design refused': 20, 'random gabarit': 20, 'family': 40}
FT = ('butter', 'cheby1', 'cheby2', 'ellip')
FORMS = {'lowpass': 'ps', 'highpass': 'sp', 'bandpass': 'sps', 'bandstop': 'psp'}


def edges(rng, k, gap=0.06):
    while True:
        e = sorted(rng.uniform(0.04, 0.96) for _ in range(k))
        if all(b - a > gap for a, b in zip(e, e[1:])):
            return e


def template(rng, form=None, same=True):
    """(Fs, bands, gains, form, seen) where the bands are in increasing frequencies"""
    form = form or rng.choice(sorted(FORMS))
    kinds = FORMS[form]
    nb = len(kinds)
    e = edges(rng, 2 * (nb - 1), rng.choice([0.05, 0.08, 0.12]) if nb == 2 else 0.06)
    Fs = rng.choice([None, 2, 1, 48000, 44100.0, 8000, 100, 7.5])
    S = (Fs or 2) / 2.
    f = [0] + [x * S for x in e] + [None if rng.random() < 0.5 else S]
    if rng.random() < 0.2 and S >= 4000:
        f = [0] + [int(x * S) for x in e] + [None]
    bands = [(f[2 * k], f[2 * k + 1]) for k in range(nb)]
    g = rng.choice([0, 0, rng.uniform(-5, 5), rng.randint(-6, 6), rng.randint(-6, 6), rng.choice([-90, -40, 30, 60, 80.5])])
    w = rng.choice([1, 0.5, rng.uniform(0.2, 4), 3])
    if rng.random() < 0.2:
        w = rng.choice([1, 0.5, 2, 3])
        g = w / 2.              # (already centred at 0 dB)
    att = rng.choice([g - w - 20, g - w - rng.uniform(4, 40)])
    gains = []
    for c in kinds:
        if c == 's':
            gains.append(att)
        else:
            up = g if same or rng.random() < 0.5 else g + rng.uniform(0.1, 3)
            pair = (up, g - w)
            if rng.random() < 0.5:
                pair = pair[::-1]
            gains.append(list(pair) if rng.random() < 0.2 else pair)
    return Fs, bands, gains, form


def shuffled(rng, bands, gains):
    k = list(range(len(bands)))
    rng.shuffle(k)
    return [bands[i] for i in k], [gains[i] for i in k]


def build(rng, Fs, bands, gains, **kw):
    b, a = shuffled(rng, bands, gains)
    if rng.random() < 0.3:
        b, a = tuple(b), tuple(a)
    return Gabarit(Fs, b, a, **kw)


def classify(m, rng, i):
    """what a gabarit says of itself is what was given"""
    if rng.random() < 0.5:
        Fs, bands, gains, form = template(rng, same=False)
    else:
        nb = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        kinds = ''.join(rng.choice('ps') for _ in range(nb))
        Fs = rng.choice([None, 2, 1000, 48000, 3.5])
        S = (Fs or 2) / 2.
        e = [x * S for x in edges(rng, 2 * nb, 0.01)]
        if rng.random() < 0.5:
            e[0] = 0
        if rng.random() < 0.5:
            e[-1] = None
        bands = [(e[2 * k], e[2 * k + 1]) for k in range(nb)]
        gains = [rng.choice([0, -20, rng.uniform(-60, 10), 3]) if c == 's' else rng.choice([(0, -1), (-1, 0), (0, 0), (rng.uniform(-5, 5), rng.uniform(-5, 5)), (-3, -2), (0.0, 0.5)]) for c in kinds]
        form = {v: k for k, v in FORMS.items()}.get(kinds, 'multiband')
    seed = rng.choice([None, 0, 7])
    g = build(rng, Fs, bands, gains, seed=seed)
    m.case({'template': [Fs, bands, gains]})
    m.ok('type', g.type == form and g.type == form, 'the type of the gabarit is not the one of its bands', got=g.type, expected=form)
    m.ok('bands', len(g.bands) == len(bands), 'a band is lost')
    m.ok('seed stored', g.seed == seed, 'the seed is not the given one')
    fs = Fs or 2
    tops = []
    for b, (f1, f2), a in zip(g.bands, bands, gains):
        top = f2 if f2 is not None else fs / 2.
        ok = b.F1 == f1 and b.F2 == top and b.Fs == fs and math.isclose(b.w1, 2 * f1 / fs, rel_tol=1e-15) and math.isclose(b.w2, 2 * top / fs, rel_tol=1e-15)
        m.ok('frequencies', ok, 'the frequencies of a band are not the given ones', got=[b.F1, b.F2, b.Fs, b.w1, b.w2], expected=[f1, top, fs])
        if isinstance(a, (tuple, list)):
            m.ok('gains', b.isPassBand is True and tuple(b.passGains) == (min(a), max(a)) and b.stopGain is None, 'a pass band has not its gains', got=repr(b), expected=a)
            tops.append(max(a))
        else:
            m.ok('gains', b.isPassBand is False and b.passGains is None and b.stopGain == a, 'a stop band has not its gain', got=repr(b), expected=a)
            tops.append(a)
        # a shift of gain
        d = rng.choice([0, 1, -2.5, 3])
        c = b - d
        if b.isPassBand:
            m.ok('shifted band', c.isPassBand and c.F1 == b.F1 and c.F2 == b.F2 and c.Fs == b.Fs and c.w2 == b.w2 and c.passGains == (b.passGains[0] - d, b.passGains[1] - d), 'band minus a gain is not the shifted band', got=repr(c), band=repr(b), gain=d)
        else:
            m.ok('shifted band', not c.isPassBand and c.F1 == b.F1 and c.F2 == b.F2 and c.Fs == b.Fs and c.w2 == b.w2 and c.stopGain == b.stopGain - d, 'band minus a gain is not the shifted band', got=repr(c), band=repr(b), gain=d)
        before = repr(b)
        c.applyDesignMargin(0.25)
        exp = (b.passGains[0] - d + 0.25, b.passGains[1] - d - 0.25) if b.isPassBand else b.stopGain - d - 0.25
        m.ok('design margin', (c.passGains if c.isPassBand else c.stopGain) == exp and repr(b) == before, 'the margin does not reduce the band (and this one only)', got=repr(c), expected=exp)
        # the rectangle drawn: exactly the forbidden/allowed gains of the band
        for dB in (True, False):
            r = b.Rectangle(dB)
            lin = (lambda x: x) if dB else (lambda x: 10 ** (x / 20.))
            ok = r.get_x() == b.F1 and math.isclose(r.get_x() + r.get_width(), b.F2, rel_tol=1e-12)
            if b.isPassBand:
                ok = ok and math.isclose(r.get_y(), lin(b.passGains[0]), abs_tol=1e-12) and math.isclose(r.get_y() + r.get_height(), lin(b.passGains[1]), abs_tol=1e-12)
            else:
                ok = ok and math.isclose(r.get_y(), lin(b.stopGain), abs_tol=1e-12) and (r.get_height() < 0 if dB else math.isclose(r.get_y() + r.get_height(), 0, abs_tol=1e-12))
            m.ok('drawn', ok, 'the rectangle drawn for a band is not the band', rectangle=str(r), band=repr(b))
        # the constraint sent to sollya
        mar = rng.choice([0, 0, 1e-3])
        wide = not b.isPassBand or b.passGains[0] < b.passGains[1]
        if wide:
            s = b.sollyaConstraint(mar)
            lo, hi = (10 ** (b.passGains[0] / 20.) - mar, 10 ** (b.passGains[1] / 20.) + mar) if b.isPassBand else (0, 10 ** (b.stopGain / 20.) + mar)
            ok = math.isclose(float(sollya.inf(s['Omega'])), b.w1, abs_tol=1e-15) and math.isclose(float(sollya.sup(s['Omega'])), b.w2, rel_tol=1e-14)
            ok = ok and math.isclose(float(s['betaInf']), lo, rel_tol=1e-12, abs_tol=1e-13) and math.isclose(float(s['betaSup']), hi, rel_tol=1e-12)
            m.ok('constraint', ok and s['omegaFactor'] is sollya.pi, 'the constraint to be verified is not the band', got=[float(sollya.inf(s['Omega'])), float(sollya.sup(s['Omega'])), float(s['betaInf']), float(s['betaSup'])], band=repr(b), margin=mar)
    m.ok('maximal gain', g.maxGain() == max(tops), 'maxGain is not the largest gain of the gabarit', got=g.maxGain(), expected=max(tops))
    s = str(g)
    m.ok('displayed', g.type in s and all(str(b) in s for b in g.bands), 'the gabarit is displayed without its type or a band', got=s)


def db(b, a, w):
    """gain in dB (200 bits) at the normalized frequency w"""
    with mpmath.workprec(200):
        z = mpmath.expjpi(-mpmath.mpf(w))
        h = abs(mpmath.polyval(b, z)) / abs(mpmath.polyval(a, z))
        return float(20 * mpmath.log10(h)) if h else -1e9


def excess(H, band, shift=0., pts=40):
    """how much (dB) H leaves the band (negative: inside)"""
    b = [mpmath.mpf(float(x)) for x in numpy.asarray(H.num)[0][::-1]]
    a = [mpmath.mpf(float(x)) for x in numpy.asarray(H.den)[0][::-1]]
    lo, hi = band.w1, band.w2

    def ex(w):
        g = db(b, a, w) + shift
        return max(band.passGains[0] - g, g - band.passGains[1]) if band.isPassBand else g - band.stopGain
    w = [lo + (hi - lo) * k / pts for k in range(pts + 1)] + [lo + (hi - lo) * 1e-3, hi - (hi - lo) * 1e-3]
    w = sorted(w)
    e = [ex(x) for x in w]
    best = max(e)
    # golden refinement around the largest ones
    for k in sorted(range(len(w)), key=lambda k: -e[k])[:2]:
        l, r = w[max(k - 1, 0)], w[min(k + 1, len(w) - 1)]
        for _ in range(14):
            m1, m2 = l + (r - l) * 0.382, l + (r - l) * 0.618
            e1, e2 = ex(m1), ex(m2)
            best = max(best, e1, e2)
            if e1 > e2:
                r = m2
            else:
                l = m1
    return best


def stable(H):
    return all(abs(r) < 1 for r in numpy.roots(numpy.asarray(H.den)[0]))


def family(m, H, g, form, ft):
    """ripples (or not) in the pass band and beyond"""
    b = [mpmath.mpf(float(x)) for x in numpy.asarray(H.num)[0][::-1]]
    a = [mpmath.mpf(float(x)) for x in numpy.asarray(H.den)[0][::-1]]
    wp = [x for x in g.bands if x.isPassBand][0]
    edge = wp.w2 if form == 'lowpass' else 1 - wp.w1
    at = (lambda w: w) if form == 'lowpass' else (lambda w: 1 - w)
    gains = lambda l, r: [10 ** (db(b, a, at(l + (r - l) * k / 150.)) / 20) for k in range(151)]
    inside, beyond = gains(0, edge), gains(edge, 1)
    top = max(inside)
    rise = lambda v: max([y - x for x, y in zip(v, v[1:])])
    got = (rise(inside) > 1e-6 * top, rise(beyond) > 1e-6 * top)
    exp = {'butter': (False, False), 'cheby1': (True, False), 'cheby2': (False, True), 'ellip': (True, True)}[ft]
    m.ok('family', got == exp, 'the filter designed is not of the family asked for', ripples=got, expected=exp, ftype=ft, form=form, num=H.num, den=H.den)


def design(m, rng, i):
    Fs, bands, gains, form = template(rng, same=i % 3 > 0)
    ft = FT[i % 4]
    g = build(rng, Fs, bands, gains)
    margin = rng.choice([0, 0, 1e-3, 0.05])
    center = rng.random() < 0.3
    kw = {}
    if ft != 'butter' or rng.random() < 0.7:
        kw['ftype'] = ft
    if margin or rng.random() < 0.3:
        kw['designMargin'] = margin
    if center:
        kw['centeredZero'] = True
    before = [repr(b) for b in g.bands]
    H = g.to_dTF(**kw)
    m.need('template untouched', [repr(b) for b in g.bands] == before, 'the design changes the template')
    m.case({'design': [Fs, bands, gains, form], 'kw': kw, 'order': H.order}, nontrivial=H.order >= 2)
    if H.order > 8:
        m.note('order too high to be judged')
        return
    # centred at 0 dB: the pass gain is the middle of the (narrowest) pass band
    shift = min((min(a) + max(a)) / 2. for a in gains if isinstance(a, (tuple, list))) if center else 0.
    worst = max(excess(H, b, shift) + (margin if not b.isPassBand else 0) for b in g.bands)
    m.ok('inside the template', worst < 1e-6, 'the filter designed for the gabarit is not inside its bands', worst_dB=worst, form=form, ftype=ft, num=H.num, den=H.den)
    lowest = max(excess(H, b, shift) + margin for b in g.bands if b.isPassBand) if margin else None
    if margin and all(max(a) - min(a) > 2.5 * margin for a in gains if isinstance(a, (tuple, list))):
        m.ok('margin respected', lowest < 1e-6, 'the filter designed with a margin does not respect it', worst_dB=lowest, margin=margin)
    m.ok('stable design', stable(H), 'the designed filter is not stable', den=H.den)
    m.seen('design:%s %s' % (form, ft))
    if form in ('lowpass', 'highpass') and H.order >= 2:
        family(m, H, g, form, ft)
    # the same template at another frequency scale: the same filter
    k = rng.choice([2, 4, 0.5, 1024])
    top = [(f1, f2) for f1, f2 in bands]
    H2 = build(rng, (Fs or 2) * k, [(f1 * k, f2 * k if f2 is not None else None) for f1, f2 in top], gains).to_dTF(**kw)
    m.ok('frequency scale', H2.num.shape == H.num.shape and bool(numpy.all(H2.num == H.num)) and bool(numpy.all(H2.den == H.den)), 'the design depends on the scale of the frequencies', factor=k, num=[H.num, H2.num])


def refused_or_inside(m, rng, g, what):
    """a template that scipy cannot handle: refused (or handled)"""
    try:
        H = g.to_dTF(ftype=rng.choice(FT))
    except ValueError:
        m.ok('design refused', True, '')
        return
    if H.order <= 8:
        worst = max(excess(H, b) for b in g.bands)
        m.ok('design refused', worst < 1e-6, 'a gabarit with %s is neither refused nor respected' % what, worst_dB=worst, gabarit=str(g))


def refusals(m, rng, i):
    Fs, bands, gains, form = template(rng)
    m.case({'refused': [Fs, bands, gains, form]}, nontrivial=True)
    k = i % 5
    if k == 0:
        m.raises('sizes refused', (ValueError,), lambda: Gabarit(Fs, bands, gains[:-1] if rng.random() < 0.5 else gains + [-20]), 'a gabarit with as many gains as bands only')
        m.raises('sizes refused', (ValueError,), lambda: Gabarit(Fs, bands[:-1], gains), 'a gabarit with as many gains as bands only')
    elif k == 1:
        Fs, bands, gains, form = template(rng, 'bandpass')
        for x in rng.sample([3, 1, 0.1, 0.05, 1e-2, 1e-3], 4):
            g2 = list(gains)
            g2[rng.choice([0, 2])] -= x
            refused_or_inside(m, rng, Gabarit(Fs, bands, g2), 'two different stop gains')
    elif k == 2:
        Fs, bands, gains, form = template(rng, 'bandstop')
        j = rng.choice([0, 2])
        for x in rng.sample([0.3, 0.1, 0.02, 1e-2, 1e-3], 4):
            g2 = list(gains)
            g2[j] = (min(gains[j]) + rng.choice([-x, x]), max(gains[j]))
            refused_or_inside(m, rng, Gabarit(Fs, bands, g2), 'two different pass gains')
    elif k == 3:
        e = edges(rng, 8, 0.01)
        kinds = rng.choice(['pspp', 'spsp', 'psps', 'ssps', 'pppp'])
        g = Gabarit(None, [(e[2 * j], e[2 * j + 1]) for j in range(4)], [(0, -1) if c == 'p' else -20 for c in kinds])
        m.raises('design refused', (ValueError,), lambda: g.to_dTF(ftype=rng.choice(FT)), 'a multiband gabarit cannot be designed')
    else:
        b = Band(Fs, 0, 0.1, rng.choice([(0, -1), -20]))
        m.raises('not a gain', (ValueError,), lambda: b - rng.choice([(1, 2), 'a', None, [1]]), 'only a constant gain can be subtracted')


def checked(m, rng, i):
    """check_dTF and findMinimumMargin, for functions inside and outside of the template"""
    Fs, bands, gains, form = template(rng)
    g = build(rng, Fs, bands, gains)
    H = g.to_dTF(ftype=rng.choice(FT), designMargin=2e-3)
    m.case({'checked': [Fs, bands, gains, form], 'order': H.order}, nontrivial=H.order >= 2)
    if H.order > 6:
        return
    with contextlib.redirect_stdout(io.StringIO()):
        pas = [a for a in gains if isinstance(a, (tuple, list))][0]
        lo, hi = 10 ** (min(pas) / 20.), 10 ** (max(pas) / 20.)
        st = 10 ** ([a for a in gains if not isinstance(a, (tuple, list))][0] / 20.)
        ok = g.check_dTF(H)[0]
        m.ok('accepted', bool(ok), 'a filter inside the template is refused by check_dTF', num=H.num, den=H.den)
        m.ok('no margin needed', float(g.findMinimumMargin(H)) == 0, 'a filter inside the template is given a margin', got=float(g.findMinimumMargin(H)))
        k = rng.choice([0.3, 0.5, 0.7, 1.5, 2.5])
        H2 = dTF(H.num * k, H.den)
        b = [mpmath.mpf(float(x)) for x in numpy.asarray(H2.num)[0][::-1]]
        a = [mpmath.mpf(float(x)) for x in numpy.asarray(H2.den)[0][::-1]]
        need = 0.
        for band in g.bands:
            h = [10 ** (db(b, a, band.w1 + (band.w2 - band.w1) * t / 300.) / 20) for t in range(301)]
            need = max(need, lo - min(h) if band.isPassBand else 0, max(h) - (hi if band.isPassBand else st))
        if need > 1e-3:
            m.ok('refused', not g.check_dTF(H2)[0], 'a filter out of the template is accepted by check_dTF', num=H2.num, den=H2.den)
            m.ok('refused', not g.check_dTF(H2, margin=need * 0.8)[0], 'a filter out of the template (even with the margin) is accepted by check_dTF', num=H2.num, den=H2.den)
            m.ok('accepted', bool(g.check_dTF(H2, margin=need * 1.2)[0]), 'a filter inside the template widened with the margin is refused', num=H2.num, den=H2.den, need=need)
            got = float(g.findMinimumMargin(H2))
            if rng.random() < 0.5:
                # starting from a given margin
                start = need * rng.choice([0.5, 0.999, 1.5])
                got0 = float(g.findMinimumMargin(H2, initMargin=start))
                m.ok('minimal margin', got0 == start if start > need * 1.2 else abs(got0 - need) < 0.02 * need + 1e-6, 'findMinimumMargin does not find the smallest margin from the given one', got=got0, expected=need, start=start)
            m.ok('minimal margin', abs(got - need) < 0.02 * need + 1e-6, 'findMinimumMargin does not find the smallest margin', got=got, expected=need, factor=k)


def plotted(m, rng, i):
    Fs, bands, gains, form = template(rng)
    g = build(rng, Fs, bands, gains)
    H = g.to_dTF(ftype=rng.choice(FT))
    m.case({'plotted': [Fs, bands, gains, form]}, nontrivial=H.order >= 2)
    if H.order > 8:
        return
    b = [mpmath.mpf(float(x)) for x in numpy.asarray(H.num)[0][::-1]]
    a = [mpmath.mpf(float(x)) for x in numpy.asarray(H.den)[0][::-1]]
    for dB in (True, False):
        plt.close('all')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g.plot(H, dB=dB)
        ax = plt.gca()
        m.ok('plotted bands', len(ax.patches) == len(bands), 'the plot has not one rectangle per band')
        x, y = numpy.asarray(ax.lines[0].get_xdata(), dtype=float).ravel(), numpy.asarray(ax.lines[0].get_ydata(), dtype=float).ravel()
        got = sorted((r.get_x(), r.get_x() + r.get_width()) + tuple(sorted((r.get_y(), r.get_y() + r.get_height()))) for r in ax.patches)
        unit = (lambda v: v) if dB else (lambda v: 10 ** (v / 20.))
        for (f1, f2), gain, r in zip(bands, gains, got):
            f2 = f2 if f2 is not None else (Fs or 2) / 2.
            if isinstance(gain, (tuple, list)):
                low, top = unit(min(gain)), unit(max(gain))
                ok = abs(r[2] - low) < 1e-9 * max(1, abs(low))
            else:
                top = unit(gain)
                # (a stop band goes down to the lowest point of the response, when this one is lower than the gain of the band)
                ok = r[2] <= top and (not dB or r[2] <= max(min(min(y), top), -400) + 1e-9 * 400) and (dB or abs(r[2]) < 1e-9)
            ok = ok and abs(r[0] - f1) < 1e-9 * (Fs or 2) and abs(r[1] - f2) < 1e-9 * (Fs or 2) and abs(r[3] - top) < 1e-9 * max(1, abs(top))
            m.ok('plotted zones', ok, 'the rectangle of a band is not the zone of the band', got=r, band=[f1, f2, gain], dB=dB)
        x, y = numpy.asarray(ax.lines[0].get_xdata(), dtype=float).ravel(), numpy.asarray(ax.lines[0].get_ydata(), dtype=float).ravel()
        ok = len(x) == len(y) >= 64 and x[0] == 0 and 0.98 * (Fs or 2) / 2 < x[-1] <= (Fs or 2) / 2.
        for k in rng.sample(range(len(x)), 12):
            e = db(b, a, 2 * x[k] / (Fs or 2))
            v = 10 ** (e / 20) if not dB else e
            if e > -100:
                ok = ok and abs(v - y[k]) < 1e-5 * max(1, abs(v))
        m.ok('plotted response', bool(ok), 'the response plotted on the gabarit is not the one of the filter', dB=dB)
    plt.close('all')


def random_gab(m, rng, i):
    """random gabarits: low-pass, in the documented ranges"""
    s = rng.choice([0, 1, rng.randrange(2 ** 24)])
    form = rng.choice([None, 'lowpass'])
    g = random_Gabarit(form=form, seed=s)
    m.case({'random gabarit': s})
    p, st = g.bands
    fs = g.bands[0].Fs
    m.ok('random gabarit', g.type == 'lowpass' and g.seed == s and 500 <= fs < 100000 and p.F1 == 0 and 0.01 * fs / 2 <= p.F2 <= 0.9 * fs / 2 and p.F2 <= st.F1 <= fs / 2. and st.F2 == fs / 2.
         and -5 <= p.passGains[1] <= 5 and 0.1 - 1e-9 <= p.passGains[1] - p.passGains[0] <= 5 + 1e-9, 'the random gabarit is not in the documented ranges', got=str(g))
    try:
        H = None
        if st.w1 - p.w2 > 0.1 and st.stopGain < p.passGains[0] - 3:
            H = g.to_dTF(ftype=rng.choice(FT))
    except ValueError as e:
        m.ok('random gabarit', False, 'a feasible random gabarit cannot be designed', error=str(e), gabarit=str(g))
    if H is not None and H.order <= 8:
        worst = max(excess(H, b) for b in g.bands)
        m.ok('inside the template', worst < 1e-6, 'the filter designed for the random gabarit is not inside its bands', worst_dB=worst, gabarit=str(g))
    form = rng.choice(['highpass', 'bandpass', 'bandstop', 'toto', ''])
    m.raises('unknown form refused', (ValueError,), lambda: random_Gabarit(form=form), 'an unknown form should be refused')


WORKLOADS = [
    Workload('classify', classify, quick=250, thorough=6000),
    Workload('design', design, quick=240, thorough=2400),
    Workload('check', checked, quick=48, thorough=500),
    Workload('plot', plotted, quick=24, thorough=100),
    Workload('refusals', refusals, quick=150, thorough=600),
    Workload('random gabarits', random_gab, quick=32, thorough=500),
]
