# coding: utf-8
"""C15: the generated algorithms, interpreted line by line, are the realization"""
import re
from fractions import Fraction as F
import numpy
from rv import oracle as o
from rv.core import Workload
from rv.sif import Ref, NAMES, shapes, rand_mats, npmats, zmat
from rv.props.C12 import Shadow
from rv.props.C14 import gen_real, hostile
from fixif.SIF import Realization
from fixif.LTI import random_Filter, Filter
from fixif import Structures as St

PROPERTY = 'C15'
RULE = ('random realizations (0..4 intermediate variables, 0..5 states, 1..3 inputs and outputs, P upper triangular or not, long coefficients, surnames with and without shift) and '
        'all the structures; their textual and LaTeX algorithms, with every combination of time labels, surnames, comments and coefficient formats, are executed line by line by an '
        'interpreter in rational arithmetic over 2..6 time steps, and compared, exactly, with the evaluation of the implicit equations; non-trivial when an output is not null')
ASSUMPTIONS = ['wrapped lines are joined before they are interpreted, comments are ignored', 'a state written with the suffix p is the next value of that state',
               'the coefficients 1, -1 and 0 are not displayed; with a format, the others are the values read back from the formatted text']


class Bad(Exception):
    pass


def statements(text, assign):
    """join the wrapped lines: a statement begins on a line with the assignment sign"""
    out = []
    for line in text:
        if assign in line:
            out.append(line)
        else:
            if not out:
                raise Bad('line %r out of any statement' % line)
            out[-1] += ' ' + line
    return out


NAME = re.compile(r'^([A-Za-z]+)(\d*)(p?)(?:\(k([+-]\d+)?\))?$')
LNAME = re.compile(r'^\$([A-Za-z]+)(?:_\{(\d+)\})?(p?)(?:\(k([+-]\d+)?\))?\$$')


def name(tok, latex, bases):
    """-> (base, index, next-state suffix, shift or None)"""
    m = (LNAME if latex else NAME).match(tok)
    if not m:
        raise Bad('unreadable name %r' % tok)
    b, i, p, s = m.groups()
    b = b or ''
    if p == '' and b.endswith('p') and b not in bases and b[:-1] in bases:
        b, p = b[:-1], 'p'
    time = None if '(k' not in tok else int(s or 0)
    return b, i or '', p, time


def number(s):
    s = s.strip()
    if 'x' in s:
        return F(float.fromhex(s))
    return F(s)


def terms(rhs, latex, bases):
    """list of (coefficient, name)"""
    rhs = rhs.strip()
    if rhs == '0':
        return []
    res = []
    for t in rhs.split(' + '):
        t = t.strip()
        if '*' in t:
            c, v = t.split('*')
            res.append((number(c), name(v.strip(), latex, bases)))
        elif t.startswith('-'):
            res.append((F(-1), name(t[1:].strip(), latex, bases)))
        else:
            res.append((F(1), name(t, latex, bases)))
    return res


class Machine(object):
    """interpreter; timed: the variables are signals over time, otherwise they are memory cells"""
    def __init__(self, timed, latex, bases):
        self.timed, self.latex, self.bases = timed, latex, bases
        self.sig, self.cell, self.k = {}, {}, 0

    def read(self, nm, scratch):
        b, i, p, s = nm
        if not self.timed:
            if s is not None:
                raise Bad('time label on %r' % (nm,))
            if (b, i, p) not in self.cell:
                raise Bad('%s%s%s is used before it is assigned' % (b, i, p))
            return self.cell[b, i, p]
        t = self.k + (s or 0)
        if s is None and (b, i, p) in scratch:
            return scratch[b, i, p]
        if (b, i, p, t) in self.sig:
            return self.sig[b, i, p, t]
        if s is not None and t <= 0 and s <= 0 and not (t == 0 and b == 'u'):
            return F(0)         # before the first sample
        raise Bad('%s%s%s(k%+d) is used before it is assigned (step %d)' % (b, i, p, s or 0, self.k))

    def write(self, nm, v, scratch):
        b, i, p, s = nm
        if not self.timed:
            if s is not None:
                raise Bad('time label on %r' % (nm,))
            self.cell[b, i, p] = v
        else:
            if s is None:
                scratch[b, i, p] = v
            self.sig[b, i, p, self.k + (s or 0)] = v
            if p:
                self.sig[b, i, '', self.k + (s or 0)] = v

    def step(self, prog, u, nt):
        """prog: list of (name, terms)"""
        scratch = {}
        for j, v in enumerate(u):
            ix = '' if len(u) == 1 else str(j + 1)
            self.write(('u', ix, '', 0 if self.timed else None), v, scratch)
        for key in [c for c in self.cell if c[0] in nt]:
            del self.cell[key]
        for dst, ts in prog:
            self.write(dst, sum((c * self.read(v, scratch) for c, v in ts), F(0)), scratch)
        self.scratch = scratch


def fmt_value(c, fmt):
    if c in (0, 1, -1):
        return c
    return c if fmt is None else F((fmt % (o.todouble(c),)).strip())


def reference(sh, fmt):
    l = sh.size[0]
    mats = []
    for k, M in zip(NAMES, sh.mats()):
        if k == 'J':
            # displayed with the opposite sign
            mats.append([[(F(int(i == j)) if i == j else -fmt_value(-v, fmt)) for j, v in enumerate(r)] for i, r in enumerate(M)])
        else:
            mats.append([[fmt_value(v, fmt) for v in r] for r in M])
    return Ref(mats, sh.size)


def run(m, R, sh, prog, opts, rng, names, pnut):
    """names: (T names, X names) as (base, index, shift)"""
    l, n, p, q = sh.size
    timed = opts['withTime']
    ref = reference(sh, opts['coefFormat'])
    N = rng.randint(2, 6)
    u = [[o.dyadic(rng, 5, -1, 3, 0.1) for _ in range(q)] for _ in range(N)]
    mach = Machine(timed, opts['latex'], {b for b, _, _ in names[0] + names[1]} | {'u', 'y'})
    x = [F(0)] * n
    tn = {b for b, _, _ in names[0]}
    if not timed:
        for b, i, _ in names[1]:
            mach.cell[b, i, ''] = F(0)
    nz = False
    for k in range(N):
        mach.k = k
        try:
            mach.step(prog, u[k], tn if not timed else ())
        except Bad as e:
            m.ok('interpretation', False, 'the algorithm cannot be executed: %s' % e, opts=opts, prog=prog)
            return
        t, xn, y = ref.step(x, u[k])
        # outputs
        got = []
        for j in range(p):
            key = ('y', '' if p == 1 else str(j + 1), '')
            got.append(mach.sig.get(key + (k,)) if timed else mach.cell.get(key))
        if got != y and not timed and not pnut:
            # the outputs computed with the states already updated
            val = {'t': t, 'x': xn, 'u': u[k]}
            wrong = [sum((c * val[v][j] for v, j, c in r), F(0)) for r in ref.rows_y]
            if got == wrong:
                m.ok('outputs read the current states', False, 'without time labels, the outputs are computed after the states have been updated in place', opts=opts,
                     step=k, got=[float(v) for v in got], expected=[float(v) for v in y], prog=prog)
                y = wrong
        m.ok('outputs', got == y, 'the outputs of the algorithm are not those of the realization', opts=opts, step=k, got=[v if v is None else float(v) for v in got], expected=[float(v) for v in y], prog=prog)
        # next states
        gx = []
        for b, i, s in names[1]:
            if timed:
                # a delayed variable whose instant is before the first sample is still null
                gx.append(mach.sig.get((b, i, '', k + 1 + s), F(0) if k + 1 + s < 0 else None))
            else:
                gx.append(mach.cell.get((b, i, 'p' if pnut else '')))
        m.ok('next states', gx == xn, 'the next states of the algorithm are not those of the realization', opts=opts, step=k, got=[v if v is None else float(v) for v in gx],
             expected=[float(v) for v in xn], prog=prog)
        if not timed and pnut:
            for b, i, _ in names[1]:
                mach.cell[b, i, ''] = mach.cell.pop((b, i, 'p'), F(0))
        x = xn
        nz = nz or any(y)
        m.seen('steps')
    return nz


def plain(base, nb):
    return [(base, '' if nb == 1 else str(i + 1), 0) for i in range(nb)]


def used(R, sh, opts, sur):
    l, n = sh.size[:2]
    sT, sX = sur if opts['withSurname'] else (None, None)

    def conv(base, nb, s):
        if s is None:
            return plain(base, nb)
        s = [(x, None, 0) if isinstance(x, str) else x for x in s]
        return [(base if b is None else b, '' if i is None else str(i), sh_) for b, i, sh_ in s]
    return conv('t', l, sT), conv('x', n, sX)


FORMATS = [None, None, '%.4f', '%e', '%.3g', '%d', '%.17g', '%f']


def one(m, R, sh, rng, sur, latex):
    """all the options of an algorithm; sur: the surnames given to the realization (T, X)"""
    l, n, p, q = sh.size
    pnut = any(sh.d['P'][i][j] for i in range(n) for j in range(i))
    opts = {'latex': latex, 'withTime': rng.random() < 0.6, 'withSurname': rng.random() < 0.4, 'coefFormat': rng.choice(FORMATS)}
    shifts = any(isinstance(x, tuple) and x[0] not in (None, b) and x[2] for b, s in zip('tx', sur) if s for x in s)
    if latex:
        caption, label = rng.choice([None, None, 'A caption', 'My own algorithm']), rng.choice([None, 'algo', 'algo:2'])
        call = lambda: R.algorithmLaTeX(caption=caption, label=label, **{k: v for k, v in opts.items() if k != 'latex'})
    else:
        opts['comments'] = rng.random() < 0.5
        call = lambda: R.algorithmTxt(**{k: v for k, v in opts.items() if k != 'latex'})
    if opts['withSurname'] and not opts['withTime'] and shifts:
        m.raises('refusals', ValueError, call, 'surnames with a shift but without time labels', opts=opts)
        return
    text = call()
    assign = r'$\leftarrow$' if latex else '<-'
    if latex:
        mm = re.search(r'\\Begin\{(.*)\}\n\\end\{algorithm\}', text, re.S)
        m.need('LaTeX', mm is not None, 'no algorithm in the LaTeX code', text=text[-600:])
        body = mm.group(1).split('\n')
        lines, swap, comments, section = [], False, [], []
        for x in body:
            x = x.strip()
            if x.startswith(r'\tcp{'):
                comments.append(x[5:-1])
            elif x == r'$x \leftarrow xp$':
                swap = True
            elif x:
                lines.append(x[:-2] if x.endswith('\\\\') else x)
                section.append(comments[-1] if comments else None)
        sec = [k for k, x in zip(section, lines) if assign in x]
        exp = (['Temporary variable%s' % ('s' if l > 1 else '')] if l else []) + (['State%s' % ('s' if n > 1 else '')] if n else []) + ['Output%s' % ('s' if p > 1 else '')]
        m.ok('comments', [c for c in comments if c != 'Swap states'] == exp, 'the comments do not announce the temporary variables, the states and the outputs', comments=comments)
        m.ok('LaTeX', swap == (pnut and not opts['withTime']), 'the states are swapped when (and only when) their next values are in another array', swap=swap, pnut=pnut, body=body)
        pre = text.split('\\documentclass{standalone}')[0]
        m.ok('header', all(not x.strip() or x.lstrip().startswith('%') for x in pre.splitlines()) and '\\documentclass{standalone}' in text, 'text out of the comments before the beginning of the LaTeX document', name=R.name, text=pre)
        declared(m, R, sh, text, pnut and not opts['withTime'])
        cap = re.findall(r'\\caption\{(.*?)(?:\\label\{[^}]*\})?\}\n', text, re.S)
        m.ok('caption', len(cap) == 1 and (cap[0] == caption if caption is not None else (R.name == '') == (cap[0] == '')), 'the caption of the algorithm is not the one given', caption=caption, got=cap)
        m.ok('caption', re.findall(r'\\label\{([^}]*)\}', text) == ([label] if label is not None else []), 'the label of the algorithm is not the one given', label=label, text=text[:1500])
    else:
        lines = text.split('\n')
        comments = [x for x in lines if x.startswith('/ ')]
        section, sec = None, []
        for x in lines:
            section = x.strip('/ ') if x.startswith('/ ') else section
            if assign in x:
                sec.append(section)
        lines = [x for x in lines if not x.startswith('/ ')]
        m.ok('comments', opts['comments'] or not comments, 'comments although they are not asked for', comments=comments)
        if opts['comments']:
            exp = (['/ Temporary variable%s /' % ('s' if l > 1 else '')] if l else []) + (['/ State%s /' % ('s' if n > 1 else '')] if n else []) + ['/ Output%s /' % ('s' if p > 1 else '')]
            m.ok('comments', comments == exp, 'the comments do not announce the temporary variables, the states and the outputs', comments=comments)
    names = used(R, sh, opts, sur)
    try:
        bases = {b for b, _, _ in names[0] + names[1]} | {'u', 'y'}
        prog = []
        for s in statements(lines, assign):
            d, e = s.split(assign)
            prog.append((name(d.strip(), latex, bases), terms(e, latex, bases)))
    except (Bad, ValueError) as e:
        m.ok('interpretation', False, 'unreadable algorithm: %s' % e, text=text, opts=opts)
        return
    m.ok('interpretation', True)
    if latex or opts['comments']:
        announced(m, sh, names, prog, sec, opts)
    m.seen('options: %s time=%d surname=%d format=%s' % ('LaTeX' if latex else 'text', opts['withTime'], opts['withSurname'], opts['coefFormat'] is not None))
    run(m, R, sh, prog, opts, rng, names, pnut)


def announced(m, sh, names, prog, sec, opts):
    """each line is announced by the comment of its own kind (an output may be a delayed state: its line is displayed only once)"""
    l, n, p, q = sh.size
    ys = {('y', '' if p == 1 else str(j + 1)) for j in range(p)}
    for (d, ts), s in zip(prog, sec):
        kind = {k for k, vs in (('Temporary variable', names[0]), ('State', names[1])) if any((b, i) == d[:2] for b, i, _ in vs)} | ({'Output'} if d[:2] in ys else set())
        m.ok('lines under their comment', s is not None and s.rstrip('s') in kind, 'a line is not under the comment that announces its kind of variable', line=d, comment=s, kinds=kind, opts=opts, prog=[x[0] for x in prog], sections=sec)


def declared(m, R, sh, text, swap):
    """the declarations of the LaTeX algorithm"""
    l, n, p, q = sh.size
    got = sorted(re.findall(r'\\(Kw\w+)\{\$(\w+)\$: (static )?(?:real|array \[1\.\.(\d+)\] of reals)\}', text))
    size = lambda k: '' if k == 1 else str(k)
    exp = [('KwIn', 'u', '', size(q)), ('KwOut', 'y', '', size(p)), ] + ([('KwData', 'x', 'static ', size(n))] if n else []) + ([('KwData', 't', '', size(l))] if l else []) + ([('KwData', 'xp', '', size(n))] if swap else [])
    m.ok('declarations', got == sorted(exp), 'the variables declared in the LaTeX algorithm are not those of the realization', got=got, expected=sorted(exp))


def surnames(rng, l, n, taken=()):
    """random surnames (None, plain ones, or with index and shift), all different"""
    pool = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'alpha', 'beta', 'state', 'w']
    if rng.random() < 0.4:
        # (names which are the beginning or the end of other names)
        pool = ['ay', 'ya', 'ax', 'xa', 'at', 'ta', 'au', 'ua', 'a', 'aa', 'ab', 'ba', 'b', 'yy']
    pool = [x for x in pool if x not in taken]
    rng.shuffle(pool)

    def some(nb):
        r = rng.random()
        if r < 0.4 or nb == 0:
            return None
        if r < 0.6:
            return [pool.pop() for _ in range(nb)] if nb <= 5 else None
        return [(pool.pop(), rng.choice([None, rng.randint(1, 12)]), rng.choice([0, 0, -1, -2])) for _ in range(nb)] if nb <= 5 else None
    return some(l), some(n)


def rand_algo(m, rng, latex):
    R0, sh = gen_real(rng, 0)
    l, n, p, q = sh.size
    sur = surnames(rng, l, n)
    if n and rng.random() < 0.35:
        # a state and an output (or two of them) with the same equation: the lines differ only by the name of the result
        for _ in range(rng.randint(1, 2)):
            i, j = rng.randrange(n), rng.randrange(p)
            for X, Y in zip('KPQ', 'LRS'):
                sh.d[Y][j] = list(sh.d[X][i])
            ix = '' if p == 1 else str(j + 1)
            if sur[1] is None and n <= 5:
                sur = sur[0], surnames(rng, 0, n, [x if isinstance(x, str) else x[0] for x in sur[0] or ()])[1]
            if sur[1] is not None and isinstance(sur[1][0], tuple):
                used_ = {x[0] for s in sur if s for x in s if isinstance(x, tuple)} | {x for s in sur if s for x in s}
                b = rng.choice([c for c in ('vy', 'zy', 'qy', 'yq', 'yv') if c not in used_])
                sur[1][i] = (b, int(ix) if ix else None, rng.choice([0, -1]))
        m.seen('same equation for a state and an output')
    name_ = rng.choice(['', 'My structure', 'gammas [[1\n 2\r\n 3]]', '10% of x_1', '%', '\n', '\n\\documentclass'])
    R = Realization(None if rng.random() < 0.5 else R0.filter, npmats(sh.mats(), sh.size), structureName=name_, surnameVarT=sur[0], surnameVarX=sur[1])
    m.case({'algorithm': sh.size, 'latex': latex, 'surnames': sur, 'Z': o.sbm(zmat(sh.mats(), sh.size))}, nontrivial=any(x for r in sh.ref().impulse(4) for v in r for x in v))
    for _ in range(3):
        one(m, R, sh, rng, sur, latex)
    if rng.random() < 0.3:
        # the algorithm follows the coefficients
        mats = rand_mats(rng, *sh.size, rho=F(7, 8))
        R.Z = o.npmat(zmat(mats, sh.size))
        one(m, R, Shadow(mats, sh.size), rng, sur, latex)
        m.seen('changed coefficients')


def text(m, rng, i):
    rand_algo(m, rng, False)


def latex(m, rng, i):
    rand_algo(m, rng, True)


def structures(m, rng, i):
    """all the structures, with the surnames they declare"""
    k = rng.randrange(3)
    if k == 0:
        f = random_Filter(rng.randint(2, 5), 1, 1, seed=rng.randrange(10 ** 6))
    elif k == 1:
        f = random_Filter(rng.randint(2, 5), rng.randint(1, 2), rng.randint(1, 3), seed=rng.randrange(10 ** 6))
    else:
        n = rng.randint(1, 5)
        f = Filter(num=[rng.choice([1, -1, 2, 3, 0, 0.5]) for _ in range(n)] + [rng.choice([1, 2, -3])], den=[1] + [rng.choice([0, 1, -1, 0.5, -0.25]) / 2 for _ in range(n)], stable=False)
    Rs = list(f.iterAllRealizations())
    R = rng.choice(Rs)
    sh = Shadow([o.fmat(x) for x in R.JtoS], R.size)
    n = f.order
    sur = (None, None)
    st, nm = R.shortName, R.structureName
    if st == 'DFI' and 'transposed:False' in nm:
        sur = (None, [('y', None, -j) for j in range(n, 0, -1)] + [('u', None, -j) for j in range(n, 0, -1)])
    elif st == 'DFII' and 'transposed:False' in nm:
        sur = ([('v', None, -1)], [('v', None, -j) for j in range(n, 0, -1)])
    lx = rng.random() < 0.4
    m.case({'structure': nm, 'latex': lx, 'filter': f.name, 'size': R.size}, key=(nm, lx, zmat(sh.mats(), sh.size)))
    for _ in range(3):
        one(m, R, sh, rng, sur, lx)
    m.seen('structure:' + st)


WORKLOADS = [Workload('text', text, 400, 8000), Workload('latex', latex, 240, 5000), Workload('structures', structures, 300, 5000)]
EXPECT = {'header': 100, 'interpretation': 1000, 'outputs': 3000, 'next states': 3000, 'refusals': 20, 'declarations': 200, 'comments': 300, 'lines under their comment': 1000, 'changed coefficients': 30, 'structure:DFI': 20, 'structure:DFII': 5}
