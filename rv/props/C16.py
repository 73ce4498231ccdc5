# coding: utf-8
"""C16: names of the variables and sums of products"""
import re
from fractions import Fraction as F
import numpy
from rv import oracle as o
from rv.core import Workload
from fixif.SoP import VarName, generateNames, SoP, FxPSoP
from fixif.FxP import Constant, FPF
from pylatexenc.latexencode import utf8tolatex

PROPERTY = 'C16'
RULE = ('random variables (name, index, also of many digits, surname, shift, suffix, unicode letters) displayed with every combination of options and read back; families of variables '
        'whose names are compared pairwise; random sums of products (0..12 terms; null, unit, huge, tiny, subnormal and long coefficients; all the formats) read back term by term; '
        'random fixed-point sums of products whose formats are tried with the extreme values of the operands')
ASSUMPTIONS = ['the names and surnames are made of letters', 'the package FxP is replaced by a stand-in', 'the product of the two most negative values is not required to be in the format of the product']

BASES = ['t', 'x', 'u', 'y', 'v', 'w', 'state', 'alpha', 'T', 'Xi', 'in', 'é', 'α', 'β', 'Δ', 'été']
NAME = re.compile(r'^(\D+?)(\d*)(\(k([+-]\d+)?\))?$')
LNAME = re.compile(r'^\$(.+?)(_\{(\d+)\})?(p|next)?(\(k([+-]\d+)?\))?\$$')


def read(s, latex):
    """-> (letters, index, suffix, time)"""
    if latex:
        mm = LNAME.match(s)
        if not mm:
            return None
        b, _, i, suf, t, sh = mm.groups()
    else:
        mm = re.match(r'^([^\W\d]+?)(\d+)?(p|next)?(\(k([+-]\d+)?\))?$', s)
        if not mm:
            return None
        b, i, suf, t, sh = mm.groups()
    return b, (None if i is None else int(i)), suf or '', (None if t is None else int(sh or 0))


def a_var(rng):
    base = rng.choice(BASES)
    ix = rng.choice([None, rng.randint(0, 12), rng.randint(10, 300), rng.randint(0, 12), rng.randint(10, 10 ** rng.randint(3, 12))])
    if rng.random() < 0.5:
        return (base, ix, None, None, 0)
    return (base, ix, rng.choice(BASES), rng.choice([None, rng.randint(0, 12), rng.randint(10, 300)]), rng.choice([0, 0, 1, -1, -2, rng.randint(-40, 40), rng.randint(-40, 40), rng.choice([-1, 1]) * rng.randint(10, 10 ** 7)]))


def expected(v, withTime, shift, withSurname, suffix):
    base, ix, sn, ind, sh = v
    if not withSurname:
        return base, ix, suffix, (shift if withTime else None)
    return (base if sn is None else sn), ind, suffix, (shift + sh if withTime else None)


def names(m, rng, i):
    """each display can be read back; different variables and instants have different displays"""
    vs = list({a_var(rng) for _ in range(rng.randint(4, 14))})
    objs = [VarName(v[0], v[1]) if v[2] is None else VarName(v[0], v[1], v[2], v[3], v[4]) for v in vs]
    m.case({'names': [list(v) for v in vs]})
    for latex in (False, True):
        for wS in (False, True):
            for wT in (False, True):
                texts = {}
                for v, ob in zip(vs, objs):
                    for suffix in ('', rng.choice(['p', 'next'])):
                        for shift in (0, 1, rng.randint(-50, 50)):
                            kw = {'withTime': wT, 'withSurname': wS, 'LaTeX': latex, 'suffix': suffix, 'shift': shift}
                            if rng.random() < 0.5:
                                kw = {a: b for a, b in kw.items() if b != {'withTime': True, 'withSurname': False, 'LaTeX': False, 'suffix': '', 'shift': 0}[a]}
                            s = ob.toStr(**kw)
                            e = expected(v, wT, shift, wS, suffix)
                            texts.setdefault(s, set()).add(e)
                            g = read(s, latex)
                            ee = (utf8tolatex(e[0]),) + e[1:] if latex else e
                            m.ok('read back', g == ee, 'the displayed name is not the one of the variable', variable=v, options=kw, text=s, read=g, expected=ee)
                for s, es in texts.items():
                    m.ok('unambiguous', len(es) == 1, 'the same name is displayed for different variables or instants', text=s, variables=list(es))
    for v, ob in zip(vs, objs):
        m.ok('accessors', ob.name == v[0] and bool(ob.hasSurnameWithIndex()) == (v[2] not in (None, v[0]) and v[4] != 0), 'wrong name or wrong surname with shift', variable=v)


def families(m, rng, i):
    sizes = [rng.choice([0, 1, 2, 3, rng.randint(2, 120)]) for _ in range(4)]
    bases = rng.sample(BASES, 4)
    kinds, fam = [], []
    for b, nb in zip(bases, sizes):
        k = rng.choice(['none', 'none', 'plain', 'tuples'])
        if k == 'none':
            sn = None
        elif k == 'plain':
            sn = [''.join(rng.choice('abcdefgh') for _ in range(6)) for _ in range(nb)]
        else:
            sn = [(rng.choice([None, rng.choice(BASES)]), rng.choice([None, rng.randint(0, 200)]), rng.randint(-3, 3)) for _ in range(nb)]
        kinds.append(k)
        kept = None if sn is None else list(sn)
        L = generateNames(b, nb, sn) if rng.random() < 0.5 else generateNames(b, nb, surnames=sn)
        m.ok('sizes', len(L) == nb and sn == kept, 'wrong number of names', base=b, nb=nb, got=len(L))
        fam.append((b, nb, sn, L))
        # bad number of surnames
        bad = [rng.choice(['a', ('a', 1, 0)])] * rng.choice([v for v in range(0, 6) if v != nb])
        m.raises('refusals', ValueError, lambda: generateNames(b, nb, surnames=bad), 'wrong number of surnames', nb=nb, surnames=bad)
    m.case({'families': [(b, nb, k) for b, nb, k in zip(bases, sizes, kinds)]}, nontrivial=sum(sizes) > 1)
    texts = {}
    for b, nb, sn, L in fam:
        for j, ob in enumerate(L):
            for shift in (0, 1):
                for latex in (False, True):
                    s = ob.toStr(shift=shift, LaTeX=latex)
                    e = (utf8tolatex(b) if latex else b, None if nb == 1 else j + 1, '', shift)
                    m.ok('read back', read(s, latex) == e, 'the displayed name is not the one of the variable', text=s, expected=e)
                    texts.setdefault(s, []).append(e)
                    s = ob.toStr(shift=shift, LaTeX=latex, withSurname=True)
                    x = (None, (j + 1 if nb > 1 else None), 0) if sn is None else (sn[j], None, 0) if isinstance(sn[j], str) else sn[j]
                    e = x[0] or b
                    e = (utf8tolatex(e) if latex else e, x[1], '', shift + x[2])
                    m.ok('read back', read(s, latex) == e, 'the displayed surname is not the one of the variable', text=s, expected=e)
    for s, es in texts.items():
        m.ok('unambiguous', len(es) == 1, 'the same name is displayed for different variables or instants', text=s, variables=es)
    m.seen('families')


def a_coef(rng):
    r = rng.random()
    if r < 0.12:
        return rng.choice([0.0, -0.0])
    if r < 0.28:
        return rng.choice([1.0, -1.0])
    if r < 0.4:
        return rng.choice([1 + 2.0 ** -52, 1 - 2.0 ** -53, -1 - 2.0 ** -52, 5e-324, -5e-324, 1.7976931348623157e308, 2.0 ** -1022, 0.1, -0.1, 1e-7, 0.99999999, -0.99999999])
    if r < 0.5:
        return rng.choice([-1, 1]) * 2.0 ** rng.randint(-1000, 1000)
    return rng.choice([-1, 1]) * rng.random() * 10 ** rng.randint(-5, 5)


def other_type(rng, c):
    """the same constant, of another type which holds it exactly"""
    t = rng.choice([float, float, float, int, numpy.float32, numpy.float64, numpy.int64])
    if t in (int, numpy.int64) and not (c == int(c) and (abs(c) < 2 ** 53 or t is int)):
        return c
    with numpy.errstate(over='ignore'):
        return t(c) if t(c) == c else c


FORMATS = [None, None, None, '%4f', '%.4f', '%e', '%.3g', '%d', '%.17g', '%+.2f', '%.60f', '%10.3e', '%08.3f']


def parse(text, assign):
    """-> result, list of (text of the coefficient or sign, variable)"""
    text = ' '.join(text.split())
    parts = text.split(' %s ' % assign)
    if len(parts) != 2:
        return None
    res, rhs = parts
    if rhs == '0':
        return res, []
    return res, [tuple(x.strip() for x in t.split('*')) if '*' in t else (('-', t[1:]) if t.startswith('-') else ('', t)) for t in rhs.split(' + ')]


def sops(m, rng, i):
    nb = rng.choice([0, 1, 1, 2, 3, 5, 12]) if rng.random() < 0.95 else rng.randint(13, 150)
    co = [a_coef(rng) for _ in range(nb)]
    latex = rng.random() < 0.3
    obs = [VarName(*a_var(rng)) for _ in range(nb)]
    kw = {'withSurname': rng.random() < 0.5, 'withTime': rng.random() < 0.7, 'LaTeX': latex, 'shift': rng.randint(-2, 2)}
    if rng.random() < 0.1 and nb:
        kw['suffix'] = 'next'
    vs = [ob.toStr(**kw) for ob in obs]
    res = rng.choice(['y', 'x1(k+1)', 't12', '$x_{1}(k)$', 'abcdefghij' * 7] + vs)
    given = [other_type(rng, c) for c in co]
    kept = (list(given), list(vs))
    S = SoP(given, vs, res)
    exp = [(c, v) for c, v in zip(co, vs) if c != 0]
    m.case({'sop': len(co), 'coefs': [c.hex() for c in co], 'vars': vs, 'res': res}, nontrivial=len(exp) > 0)
    for assign in ('<-', rng.choice(['=', ':=', r'$\leftarrow$'])):
        fmt = rng.choice(FORMATS)
        text = S.toAlgoStr(assign=assign, coefFormat=fmt) if rng.random() < 0.5 else S.toAlgoStr(assign, fmt)
        trivial = len(exp) == 1 and exp[0][0] == 1 and exp[0][1] == res
        if text == '':
            m.ok('useless assignments', trivial, 'nothing displayed for a sum of products which is not an assignment of a variable to itself', res=res, terms=exp)
            m.seen('useless')
            continue
        p = parse(text, assign)
        if not m.ok('terms', p is not None and p[0] == res, 'unreadable sum of products', text=text, res=res, assign=assign):
            continue
        check(m, p[1], exp, fmt, text)
        for line in text.split('\n'):
            m.ok('lines', len(line) <= 60 or ' ' not in line.strip(), 'a line longer than 60 characters', line=line)
    p = parse(str(S), '<-') if str(S) else None
    if p is not None:
        check(m, p[1], exp, '%4f', str(S))
    m.ok('arguments untouched', (given, vs) == kept, 'the lists given have been modified')
    bad = vs + ['z'] if rng.random() < 0.5 or not vs else vs[:-1]
    m.raises('refusals', ValueError, lambda: SoP(co, bad, res), 'lists of different sizes')


def check(m, terms, exp, fmt, text):
    if not m.ok('terms', len(terms) == len(exp), 'the number of products displayed is not the number of non-null products', text=text, expected=exp):
        return
    for (c, v), (ec, ev) in zip(terms, exp):
        m.ok('terms', v == ev, 'wrong variable in the sum of products', text=text, got=v, expected=ev)
        if c in ('', '-'):
            m.ok('coefficients', ec == (1 if c == '' else -1), 'a coefficient is not displayed although it is neither 1 nor -1', text=text, coefficient=ec)
            continue
        try:
            val = float.fromhex(c) if fmt is None else float(c)
        except ValueError:
            val = None
        if fmt is None:
            m.ok('coefficients', val is not None and F(val) == F(ec), 'the coefficient displayed by default is not exact', text=c, coefficient=ec)
        else:
            m.ok('coefficients', val is not None and val == float(fmt % ec), 'the coefficient displayed is not the one formatted as asked', text=c, coefficient=ec, format=fmt)


def fxp(m, rng, i):
    nb = rng.choice([1, 1, 2, 3, 4, 6])
    vals = []
    while len(vals) < nb:
        v = a_coef(rng)
        if v and 1e-200 < abs(v) < 1e200:
            vals.append(v)
    cst = [Constant(v, wl=rng.choice([1, 2, 4, 8, 16, 30]) + 1) for v in vals]
    fpf = []
    for _ in range(nb):
        lsb = rng.randint(-30, 10)
        fpf.append(FPF(msb=lsb + rng.randint(0, 20), lsb=lsb))
    lsb = rng.randint(-30, 10)
    res = FPF(msb=lsb + rng.randint(0, 30), lsb=lsb)
    names_ = ['v%d' % j for j in range(nb)]
    fmts = [(f.msb, f.lsb) for f in fpf]
    S = FxPSoP(cst, names_, fpf, 's', res)
    m.case({'fxpsop': nb, 'values': vals, 'constants': [(c.FPF.msb, c.FPF.lsb) for c in cst], 'variables': fmts})
    prod = shown(S.sumLaTeX())
    if not m.ok('formats', len(prod) == nb + 1, 'wrong number of formats displayed', got=prod):
        return
    for c, (vm, vl), (pm, pl, _, _, _) in zip(cst, fmts, prod):
        a = c.mantissa * F(2) ** c.FPF.lsb
        for v in (-F(2) ** vm, F(2) ** vm - F(2) ** vl, F(2) ** vl, -F(2) ** vl, F(2) ** vl * (2 ** max(0, (vm - vl) // 2) + 1)):
            if v == -F(2) ** vm and a == -F(2) ** c.FPF.msb or not -F(2) ** vm <= v < F(2) ** vm:
                continue
            r = a * v
            m.ok('format of the products', -F(2) ** pm <= r <= F(2) ** pm - F(2) ** pl and (r / F(2) ** pl).denominator == 1, 'the format of a product does not hold a product of its operands', constant=float(a),
                 value=float(v), variable=(vm, vl), cformat=(c.FPF.msb, c.FPF.lsb), product=(pm, pl))
        m.ok('format of the products', pm - pl + 1 <= c.FPF.wl + vm - vl + 1, 'the format of a product is larger than the sum of the word-lengths of its operands', product=(pm, pl))
    m.ok('formats', prod[-1][:2] == (res.msb, res.lsb), 'the format of the result is not the one given')
    # displays
    base = [q[:2] for q in prod[:-1]]
    for sort in (False, 'msb', 'lsb'):
        kw = {'sort': sort, 'hatches': rng.random() < 0.5, 'axis': rng.random() < 0.5, 'xshift': rng.randint(-3, 3), 'yshift': rng.randint(-3, 3)}
        text = S.sumLaTeX(**kw)
        q = shown(text)
        got = [v[:2] for v in q[:-1]]
        m.ok('displays', sorted(got) == sorted(base) and q[-1][:2] == (res.msb, res.lsb), 'the formats displayed are not those of the products and of the result', options=kw, got=q, expected=base)
        if sort == 'msb':
            m.ok('displays', [v[0] for v in got] == sorted((v[0] for v in base), reverse=True), 'the products are not sorted by decreasing most significant bit', got=got)
        elif sort == 'lsb':
            m.ok('displays', [v[1] for v in got] == sorted(v[1] for v in base), 'the products are not sorted by least significant bit', got=got)
        else:
            m.ok('displays', got == base, 'the order of the products has changed', got=got, expected=base)
        ys = [v[3] for v in q]
        m.ok('displays', all(a - b > 1 for a, b in zip(ys, ys[1:])) and abs(ys[0] - kw['yshift']) < 1e-6, 'the products and the result are not drawn one under the other', y=ys, options=kw)
        m.ok('displays', all(v[2] == kw['xshift'] for v in q), 'wrong horizontal shift', options=kw)
        m.ok('displays', all(v[4] == (str((res.msb, res.lsb)) if kw['hatches'] else 'None') for v in q[:-1]), 'wrong hatches', options=kw, got=q)
        m.ok('displays', text.count(r'\draw') == 1 + kw['axis'], 'wrong number of lines drawn', options=kw)
    p = parse(S.toAlgoStr(), '<-')
    m.ok('terms', p is not None and p[0] == 's', 'unreadable sum of products')
    if p:
        check(m, p[1], list(zip(vals, names_)), None, S.toAlgoStr())
    # refusals
    bad = list(cst)
    bad[rng.randrange(nb)] = rng.choice([1, 0.5, 'c', None])
    m.raises('refusals', ValueError, lambda: FxPSoP(bad, names_, fpf, 's', res), 'constants that are not Constant objects', bad=bad)
    lists = [list(cst), list(names_), list(fpf)]
    k = rng.randrange(3)
    lists[k] = lists[k][:-1] if rng.random() < 0.5 else lists[k] + lists[k][:1]
    m.raises('refusals', ValueError, lambda: FxPSoP(lists[0], lists[1], lists[2], 's', res), 'lists of different sizes', sizes=[len(x) for x in lists])


def shown(text):
    return [(int(a), int(b), int(x), float(y), h) for a, b, x, y, h in re.findall(r'%FPF msb=(-?\d+) lsb=(-?\d+) x=(-?\d+) y=(-?[\d.]+) hatches=(.*)', text)]


WORKLOADS = [Workload('names', names, 300, 6000), Workload('families', families, 300, 6000), Workload('sops', sops, 4000, 100000), Workload('fxp', fxp, 2000, 40000)]
EXPECT = {'read back': 8000, 'unambiguous': 4000, 'refusals': 800, 'terms': 2000, 'coefficients': 1500, 'useless': 3, 'format of the products': 2000, 'displays': 2000}
