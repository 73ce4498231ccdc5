# coding: utf-8
"""C22: the realizations imported from Simulink diagrams behave as the diagrams"""
import contextlib
import io
import os
import tempfile
import zipfile
from fractions import Fraction as F
from xml.sax.saxutils import quoteattr, escape
from rv import oracle as o
from rv import core
from rv.core import Workload
from rv.sif import Ref
from fixif.Structures.Simulink import importSimulink
from fixif.SIF import Realization

PROPERTY = 'C22'
RULE = ('random causal diagrams (1..3 inputs, 1..3 outputs, 0..8 sums of 1..4 signed inputs, 0..8 gains, 0..5 unit delays; shared signals, the same signal on several inputs of a sum, chains of sums and of gains, '
        'outputs on any block, unused blocks), randomly wrapped in nested subsystems (with shared, duplicated and crossing ports), written with random identifiers, orders of the blocks and the lines, branches, and named gains; '
        'the imported realization is evaluated exactly against the simulation of the flat diagram; non-trivial with a delay or two sums')
ASSUMPTIONS = ['dyadic gains, so that every product and sum is exact', 'scalar signals, null initial conditions', 'the files have the elements written by Simulink in the four diagrams of the repository']
EXPECT = {'loop on a sum': 3, 'default length of the delays': 2, 'outputs': 150, 'sizes': 150, 'with subsystems': 60, 'nested subsystems': 20, 'same outputs': 30, 'refused': 60, 'shipped': 4}


# -- diagrams: {sid: (type, parameter, [sources])} ------------------------------------------
def diagram(rng, general=True):
    q, p = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
    large = rng.random() < 0.1
    if large:
        # (more than nine ports)
        q, p = rng.choice([(11, 1), (1, 12), (10, 10), (2, 3)])
    # one gain that is nearly 0, 1 or -1, or very large
    special = rng.choice([F(1, 2 ** 20), 1 + F(1, 2 ** 20), -1 + F(1, 2 ** 20), F(-1, 2 ** 30), F(2 ** 22), F(1, 2 ** 44)]) if rng.random() < 0.2 else None
    nd = rng.choice([0, 1, 1, 2, 3, 5]) if general else rng.randint(1, 4)
    ns, ng = (rng.randint(0, 8), rng.randint(0, 8)) if general else (rng.randint(1, 8), rng.randint(0, 8))
    pool = list(range(1, 60)) if rng.random() < 0.7 else rng.sample(range(1, 3000), 60)
    if rng.random() < 0.7:
        rng.shuffle(pool)
    new = iter(pool)
    G = {}
    ins = [next(new) for _ in range(q)]
    for k, s in enumerate(ins):
        G[s] = ['Inport', k + 1, []]
    delays = [next(new) for _ in range(nd)]
    for s in delays:
        G[s] = ['Delay', 1, None]
    avail = ins + delays
    ops = ['Sum'] * ns + ['Gain'] * ng
    rng.shuffle(ops)
    made = []
    for t in ops:
        s = next(new)
        cand = avail + made * 2
        if t == 'Gain' and not general:
            cand = [c for c in cand if G[c][0] != 'Gain']
        # (prefer what is not used yet)
        unused = [c for c in cand if not any(c in (g[2] or []) for g in G.values())]
        pick = lambda: rng.choice(unused if unused and rng.random() < 0.5 else cand)
        if t == 'Sum':
            k = rng.choice([1, 2, 2, 2, 3, 4]) if not large else rng.choice([2, 10, 12])
            G[s] = ['Sum', ''.join(rng.choice('++-') for _ in range(k)), [pick() for _ in range(k)]]
            if k > 1 and rng.random() < 0.1:
                G[s][2][1] = G[s][2][0]
        else:
            G[s] = ['Gain', rng.choice([F(1), F(-1), F(1, 2), F(-3, 4), F(0), F(2), None, o.dyadic(rng, 4, -1, 3), o.dyadic(rng, 4, -3, 1), o.dyadic(rng, 4, -2, 1)]), [pick()]]
            if special is not None:
                first = not any(g[0] == 'Gain' and g[1] == special for g in G.values())
                G[s][1] = special if first else rng.choice([F(1), F(-1), F(1, 2), F(-1, 4), None, F(0)])
        made.append(s)
    for s in delays:
        G[s][2] = [rng.choice(avail + made * 3)]
    outs = []
    cand = list(made if not general and made else avail + made * 4)
    for k in range(p):
        s = next(new)
        d = rng.choice(cand)
        if not general:
            # a driver for each output
            cand = [c for c in cand if c != d] or None
        G[s] = ['Outport', k + 1, [d]]
        outs.append(s)
        if cand is None:
            break
    if rng.random() < 0.1:
        # some inputs are not connected (they are null)
        for s, g in G.items():
            if g[2] and rng.random() < 0.2:
                g[2][rng.randrange(len(g[2]))] = None
    return G, ins, outs


def simulate(G, ins, outs, U):
    """direct simulation of the flat diagram"""
    state = {s: F(0) for s, g in G.items() if g[0] == 'Delay'}
    Y = []
    for u in U:
        val = dict(state)
        val.update(zip(ins, u))
        val[None] = F(0)

        def ev(s):
            if s not in val:
                t, par, src = G[s]
                if t == 'Sum':
                    val[s] = sum(((1 if c == '+' else -1) * ev(x) for c, x in zip(par, src)), F(0))
                elif t == 'Gain':
                    val[s] = (F(1) if par is None else par) * ev(src[0])
                else:
                    val[s] = ev(src[0])
            return val[s]
        Y.append([ev(s) for s in outs])
        state = {s: ev(G[s][2][0]) for s in state}
    return Y


# -- hierarchy ---------------------------------------------------------------------------------
class Level(object):
    def __init__(self):
        self.blocks = {}        # sid -> ('Sum', par) ... or ('SubSystem', Level, nin, nout)
        self.lines = []         # ((sid, port), (sid, port))
        self.dangling = []      # (sid, port) not connected

    def depth(self):
        return 1 + max([b[1].depth() for b in self.blocks.values() if b[0] == 'SubSystem'] or [0])


def flat(G):
    L = Level()
    for s, (t, par, src) in G.items():
        L.blocks[s] = (t, par)
        for k, x in enumerate(src):
            if x is None:
                L.dangling.append((s, k + 1))
            else:
                L.lines.append(((x, 1), (s, k + 1)))
    return L


def wrap(rng, L, newsid):
    """moves some blocks of the level in a new subsystem"""
    cand = [s for s, b in L.blocks.items() if not (b[0] in ('Inport', 'Outport'))]
    if not cand:
        return None
    S = set(rng.sample(cand, rng.randint(1, len(cand))))
    sub = newsid()
    N = Level()
    for s in S:
        N.blocks[s] = L.blocks.pop(s)
    N.dangling = [d for d in L.dangling if d[0] in S]
    L.dangling = [d for d in L.dangling if d[0] not in S]
    inp, outp = {}, {}
    nin, nout = [0], [0]

    def inport(src, key):
        if key not in inp:
            nin[0] += 1
            s = newsid()
            N.blocks[s] = ('Inport', nin[0])
            outer.append((src, (sub, nin[0])))
            inp[key] = (s, 1)
        return inp[key]

    def outport(src, key):
        if key not in outp:
            nout[0] += 1
            s = newsid()
            N.blocks[s] = ('Outport', nout[0])
            N.lines.append((src, (s, 1)))
            outp[key] = (sub, nout[0])
        return outp[key]
    outer = []
    dup = rng.random() < 0.3
    lines = list(L.lines)
    rng.shuffle(lines)
    for src, dst in lines:
        a, b = src[0] in S, dst[0] in S
        key = (src, dst) if dup and rng.random() < 0.5 else src
        if a and b:
            if rng.random() < 0.08:
                # goes out and in again
                outer.append((outport(src, ('loop', src, dst)), None))
                po = outer.pop()[0]
                N.lines.append((inport(po, ('loop', src, dst)), dst))
            else:
                N.lines.append((src, dst))
        elif b:
            N.lines.append((inport(src, key), dst))
        elif a:
            outer.append((outport(src, key), dst))
        elif rng.random() < 0.08:
            # a wire going through the subsystem
            i = inport(src, key)
            outer.append((outport(i, ('through', src, dst)), dst))
        else:
            outer.append((src, dst))
    if rng.random() < 0.5:
        # (ports in any order)
        for kind, n in (('Inport', nin[0]), ('Outport', nout[0])):
            perm = list(range(1, n + 1))
            rng.shuffle(perm)
            for s, b in N.blocks.items():
                if b[0] == kind:
                    N.blocks[s] = (kind, perm[b[1] - 1])
            if kind == 'Inport':
                outer = [(a, (b[0], perm[b[1] - 1]) if b[0] == sub else b) for a, b in outer]
            else:
                outer = [((a[0], perm[a[1] - 1]) if a[0] == sub else a, b) for a, b in outer]
    L.lines = outer
    L.blocks[sub] = ('SubSystem', N, nin[0], nout[0])
    return N


class Consts(dict):
    """values of the named gains; named: sid -> name"""
    def __init__(self):
        super(Consts, self).__init__()
        self.named = {}
        self.defaults = {}      # values of the parameters that are not written


# -- the file ----------------------------------------------------------------------------------
def P(name, text):
    return '<P Name="%s">%s</P>' % (name, escape(text))


def num(rng, x):
    v = repr(float(x)) if x.denominator != 1 or abs(x) > 10 ** 12 else str(x.numerator)
    assert F(float(v)) == x
    k = rng.randrange(12)
    if k == 0:
        v = '%.17e' % float(x)
    elif k == 1 and v.startswith('0.'):
        v = v[1:]
    elif k == 2 and '.' not in v and 'e' not in v:
        v += '.'
    elif k == 3 and 'e' not in v:
        v = (v if '.' in v else v + '.') + '00'
    elif k == 4:
        v = ' ' + v + ' '
    elif k == 5 and x >= 0:
        v = '+' + v
    elif k == 6:
        v = ('%.17E' % float(x))
    return v


def block(rng, s, b, consts, names):
    t = b[0]
    ps = []
    if rng.random() < 0.7:
        ps += [P('Position', '[%d, 115, 450, 135]' % rng.randint(0, 500)), P('ZOrder', str(rng.randint(1, 50)))]
    sub = ''
    if t in ('Inport', 'Outport'):
        if b[1] != 1 or rng.random() < 0.3:
            ps.append(P('Port', str(b[1])))
        ps.append(P('IconDisplay', 'Port number'))
    elif t == 'Sum':
        if len(b[1]) != 2 or rng.random() < 0.7:
            ps.append(P('Ports', '[%d, 1]' % len(b[1])))
        sg = list(b[1])
        for _ in range(rng.choice([0, 1, 1, 2])):
            sg.insert(rng.randint(0, len(sg)), '|')
        ps.append(P('IconShape', 'round'))
        if b[1] != consts.defaults.get('Sum') or rng.random() < 0.2:
            ps.append(P('Inputs', ''.join(sg)))
    elif t == 'Gain':
        default = consts.defaults.get('Gain', 1)
        if (b[1] is not None and (b[1] != default or rng.random() < 0.8)) or (b[1] is None and default != 1):
            if b[1] is None:
                ps.append(P('Gain', '1'))
            elif rng.random() < 0.3:
                n = rng.choice(['a', 'b0', 'gain_%d' % s, 'alpha', 'A', 'e1', 'inf', 'x.y(2)', 'a*b'])
                n = n if consts.get(n, b[1]) == b[1] else 'k%d' % s
                consts[n] = b[1]
                consts.named[s] = n
                ps.append(P('Gain', n))
            else:
                ps.append(P('Gain', num(rng, b[1])))
        ps.append(P('ParamDataTypeStr', 'Inherit: Inherit via internal rule'))
    elif t == 'Delay':
        ps.append(P('InputPortMap', 'u0'))
        if consts.defaults.get('Delay') != 1 or rng.random() < 0.3:
            ps.append(P('DelayLength', '1'))
    elif t == 'SubSystem':
        ps.append(P('Ports', '[%d, %d]' % (b[2], b[3])))
        sub = system(rng, b[1], consts, names)
    if rng.random() < 0.5:
        rng.shuffle(ps)
    name = names(t, s)
    return '<Block BlockType="%s" Name=%s SID="%d">%s%s</Block>' % (t, quoteattr(name), s, '\n'.join(ps), sub)


def branches(rng, dsts):
    d = ['<Branch>' + (P('ZOrder', '3') if rng.random() < 0.3 else '') + P('Dst', '%d#in:%d' % x) + '</Branch>' for x in dsts]
    rng.shuffle(d)
    if len(d) > 2 and rng.random() < 0.5:
        k = rng.randint(1, len(d) - 2)
        d = d[:k] + ['<Branch>' + P('Points', '[0, 15]') + ''.join(d[k:]) + '</Branch>']
    return ''.join(d)


def system(rng, L, consts, names):
    bl = [block(rng, s, b, consts, names) for s, b in L.blocks.items()]
    by = {}
    for src, dst in L.lines:
        by.setdefault(src, []).append(dst)
    li = []
    for src, dsts in by.items():
        if len(dsts) == 1 and rng.random() < 0.9:
            li.append('<Line>' + (P('ZOrder', '1') if rng.random() < 0.5 else '') + P('Src', '%d#out:%d' % src) + P('Dst', '%d#in:%d' % dsts[0]) + '</Line>')
        elif rng.random() < 0.1:
            li += ['<Line>' + P('Src', '%d#out:%d' % src) + P('Dst', '%d#in:%d' % d) + '</Line>' for d in dsts]
        else:
            li.append('<Line>' + P('Src', '%d#out:%d' % src) + P('Points', '[10, 0]') + branches(rng, dsts) + '</Line>')
    # wires not connected on one side (an input that is not connected is null)
    if L.blocks and rng.random() < 0.15:
        li.append('<Line>' + P('Points', '[3, 4]') + '</Line>')
        if by:
            li.append('<Line>' + P('Src', '%d#out:%d' % rng.choice(list(by))) + P('Points', '[10, 0]') + '</Line>')
    for d in L.dangling:
        if rng.random() < 0.7:
            li.append('<Line>' + P('Dst', '%d#in:%d' % d) + P('Points', '[10, 0]') + '</Line>')
    rng.shuffle(bl)
    rng.shuffle(li)
    allp = [P('Location', '[0, 0, 10, 10]')] + (bl + li if rng.random() < 0.7 else li + bl)
    return '<System>\n%s\n</System>' % '\n'.join(allp)


def write(path, xml, member='simulink/blockdiagram.xml', extra=()):
    with zipfile.ZipFile(path, 'w') as z:
        z.writestr('[Content_Types].xml', '<Types/>')
        if member:
            z.writestr(member, xml)
        for e in extra:
            z.writestr(e, xml)
        z.writestr('simulink/graphicalInterface.xml', '<a/>')
        z.writestr('metadata/notblockdiagram.xml.rels', '<a/>')


def defaults(rng, consts):
    """the parameters of the blocks that are not written have the values given at the beginning of the file"""
    d, e = consts.defaults, []
    bars = lambda t: t if rng.random() < 0.5 else '|' + t
    if rng.random() < 0.6:
        d['Sum'] = rng.choice(['++', '++', '+-', '-+', '+++', '--'])
        e.append('<Block BlockType="Sum">%s%s</Block>' % (P('IconShape', 'rectangular'), P('Inputs', bars(d['Sum']))))
    if rng.random() < 0.6:
        d['Gain'] = rng.choice([F(1), F(1), F(1, 2), F(-1), F(3, 4)])
        e.append('<Block BlockType="Gain">%s%s</Block>' % (P('Gain', num(rng, d['Gain'])), P('Multiplication', 'Element-wise(K.*u)')))
    if rng.random() < 0.6:
        d['Delay'] = rng.choice([2, 1, 1])
        e.append('<Block BlockType="Delay">%s%s</Block>' % (P('DelayLengthSource', 'Dialog'), P('DelayLength', str(d['Delay']))))
    if rng.random() < 0.6:
        e += ['<Block BlockType="%s">%s</Block>' % (t, P('Port', '1')) for t in ('Inport', 'Outport')]
    if rng.random() < 0.6:
        e.append('<Block BlockType="SubSystem">%s</Block>' % P('ShowPortLabels', 'FromPortIcon'))
    rng.shuffle(e)
    return '<BlockParameterDefaults>%s</BlockParameterDefaults>' % '\n'.join(e) if e or rng.random() < 0.5 else ''


def slx(rng, L, consts, plain=False):
    n = [0]
    style = rng.randrange(3)

    def names(t, s):
        n[0] += 1
        return '%s%d' % (t, n[0]) if style == 0 else t if style == 1 else rng.choice(['y[n]', 'a<b', '"q"', 'e\u00e9', 'x & y', '%d' % s])
    xml = '<?xml version="1.0" encoding="utf-8"?>\n<ModelInformation Version="1.0">\n<Model Name="m">%s\n%s</Model></ModelInformation>' % (
        '<BlockParameterDefaults><Block BlockType="Sum"><P Name="Inputs">++</P></Block></BlockParameterDefaults>' if plain else defaults(rng, consts), system(rng, L, consts, names))
    d = tempfile.mkdtemp(dir=core.SCRATCH)
    path = os.path.join(d, 'model.slx')
    write(path, xml.encode('utf-8'), member=rng.choice(['simulink/blockdiagram.xml', 'blockdiagram.xml', 'a/b/blockdiagram.xml']))
    return path, xml


def load(path, consts=None):
    """-> (realization or None, output)"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        R = importSimulink(path, constants=consts) if consts is not None else importSimulink(path)
    return R


def built(rng, G, consts):
    L = flat(G)
    used = set(G)
    # unconnected inputs
    for s, b in list(L.blocks.items()):
        if b[0] == 'Sum' and rng.random() < 0.04:
            L.blocks[s] = ('Sum', b[1] + rng.choice('+-'))
            L.dangling.append((s, len(b[1]) + 1))
    free = iter([k for k in rng.sample(range(1, 4000), 400) if k not in used])
    levels = [L]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
        N = wrap(rng, rng.choice(levels), lambda: next(free))
        if N:
            levels.append(N)
    return L, slx(rng, L, consts)


def compare(m, rng, R, G, ins, outs, mon, **kw):
    m.need('sizes', isinstance(R, Realization) and (R.q, R.p) == (len(ins), len(outs)), 'the realization has not the inputs and the outputs of the diagram', got=[R.q, R.p], expected=[len(ins), len(outs)], **kw)
    N = 8 + R.n
    U = [[o.dyadic(rng, 5, -1, 3) for _ in ins] for _ in range(N)]
    if rng.random() < 0.3:
        # impulse on one input
        j = rng.randrange(len(ins))
        U = [[F(1 if k == 0 and i == j else 0) for i in range(len(ins))] for k in range(N)]
    Y = simulate(G, ins, outs, U)
    try:
        ref = Ref.of(R)
    except AssertionError as e:
        m.ok('triangular', False, 'the imported realization is not computable: %s' % e, J=R.J, **kw)
        return
    got = [s[3] for s in ref.run(U)]
    m.ok(mon, got == Y, 'the imported realization has not the outputs of the diagram', got=[[float(x) for x in y] for y in got], expected=[[float(x) for x in y] for y in Y], **kw)


def legal(m, path, consts, **kw):
    try:
        return load(path, consts)
    except SystemExit:
        m.need('accepted', False, 'a legal diagram is refused (exit)', **kw)


def text(G):
    return {str(s): [g[0], str(g[1]), g[2]] for s, g in G.items()}


def imported(m, rng, i):
    G, ins, outs = diagram(rng, general=i % 3 > 0)
    consts = Consts()
    L, (path, xml) = built(rng, G, consts)
    types = [g[0] for g in G.values()]
    m.case({'diagram': text(G), 'depth': L.depth(), 'constants': {k: str(v) for k, v in consts.items()}}, nontrivial='Delay' in types or types.count('Sum') > 1)
    if rng.random() < 0.3:
        consts['unused'] = F(3)
    R = legal(m, path, {k: float(v) for k, v in consts.items()} if consts or rng.random() < 0.5 else None, xml=xml[:6000])
    if L.depth() > 1:
        m.seen('with subsystems')
    if L.depth() > 2:
        m.seen('nested subsystems')
    compare(m, rng, R, G, ins, outs, 'outputs', xml=xml[:6000])
    if any(None in g[2] for g in G.values()):
        m.seen('inputs that are not connected')
    if i % 4 == 0:
        # the same diagram written another way: same outputs; other values of the named gains
        consts2 = Consts()
        L2, (path2, xml2) = built(rng, G, consts2)
        if consts2:
            new = {k: o.dyadic(rng, 3, -2, 1) for k in consts2}
            R2 = legal(m, path2, {k: float(v) for k, v in consts2.items()}, xml=xml2[:6000])
            compare(m, rng, R2, G, ins, outs, 'same outputs', xml=xml2[:6000])
            # the gains are those supplied at each import
            byname = consts2.named
            G3 = {s: [g[0], new[byname[s]] if s in byname else g[1], g[2]] for s, g in G.items()}
            R3 = legal(m, path2, {k: float(v) for k, v in new.items()}, xml=xml2[:6000])
            compare(m, rng, R3, G3, ins, outs, 'supplied gains', xml=xml2[:6000])
        else:
            R2 = legal(m, path2, None, xml=xml2[:6000])
            compare(m, rng, R2, G, ins, outs, 'same outputs', xml=xml2[:6000])


def refused(m, rng, i):
    G, ins, outs = diagram(rng, general=rng.random() < 0.5)
    k = i % 10
    consts = Consts()
    d = tempfile.mkdtemp(dir=core.SCRATCH)
    path = os.path.join(d, 'x.slx')
    exc = (ValueError, SystemExit)
    what = ''
    if k == 0:
        with open(path, 'wb') as f:
            f.write(rng.choice([b'', b'PK', b'<ModelInformation/>', os.urandom(0) + bytes(rng.randrange(256) for _ in range(300))]))
        exc, what = (ValueError,), 'a file that is not a zip'
    elif k == 1:
        path, exc, what = os.path.join(d, 'none.slx'), (ValueError,), 'a missing file'
    elif k == 2:
        write(path, '<a/>', member=rng.choice([None, 'simulink/diagram.xml', 'simulink/blockdiagram.xml.bak', 'blockdiagram.xml/other']))
        exc, what = (ValueError,), 'an archive without diagram'
    elif k == 3:
        write(path, '<ModelInformation/>', extra=['other/blockdiagram.xml'])
        exc, what = (ValueError,), 'an archive with two diagrams'
    elif k in (4, 5, 6, 7, 8, 9):
        L = flat(G)
        free = iter([s for s in rng.sample(range(1, 9000), 300) if s not in G])
        if k == 4:
            s = next(free)
            L.blocks[s] = (rng.choice(['Product', 'Constant', 'UnitDelay', 'Scope', 'Saturate', 'Mux', 'DiscreteTransferFcn']), None)
            what, exc = 'an unsupported block', (SystemExit, ValueError)
        elif k == 5:
            what, exc = 'a delay longer than a sample', (ValueError,)
            s = next(free)
            L.blocks[s] = ('Delay', 1)
            L.lines.append(((ins[0], 1), (s, 1)))
        elif k == 6:
            what, exc = 'an unknown constant', (ValueError, KeyError, TypeError)
            s = next(free)
            L.blocks[s] = ('Gain', F(77))
            L.lines.append(((ins[0], 1), (s, 1)))
        elif k == 7:
            # algebraic loop of sums, that the output needs
            what = 'an algebraic loop'
            if rng.random() < 0.25:
                # a loop of gains only
                gs = [next(free) for _ in range(rng.randint(1, 4))]
                for a, b in zip(gs, gs[1:] + gs[:1]):
                    L.blocks[a] = ('Gain', rng.choice([F(1, 2), F(-1), F(2)]))
                    L.lines.append(((a, 1), (b, 1)))
                last = gs[0]
                if rng.random() < 0.5:
                    last = next(free)
                    L.blocks[last] = ('Sum', '+-')
                    L.lines += [((ins[0], 1), (last, 1)), ((gs[0], 1), (last, 2))]
                y = next(free)
                L.blocks[y] = ('Outport', len(outs) + 1)
                L.lines.append(((last, 1), (y, 1)))
                m.seen('loop of gains')
            elif rng.random() < 0.6:
                # a sum that is fed by itself, through gains and sums that are used once
                a = last = next(free)
                L.blocks[a] = ('Sum', rng.choice(['++', '+-', '-+']))
                L.lines.append(((ins[0], 1), (a, 1)))
                for _ in range(rng.randint(0, 4)):
                    g = next(free)
                    if rng.random() < 0.5:
                        L.blocks[g] = ('Gain', rng.choice([F(1, 2), F(-1), F(1), F(3)]))
                        L.lines.append(((last, 1), (g, 1)))
                    else:
                        L.blocks[g] = ('Sum', rng.choice(['++', '--', '+-']))
                        L.lines += [((last, 1), (g, 1)), ((ins[0], 1), (g, 2))]
                    last = g
                L.lines.append(((last, 1), (a, 2)))
                y = next(free)
                L.blocks[y] = ('Outport', len(outs) + 1)
                L.lines.append(((rng.choice([a, last]), 1), (y, 1)))
                m.seen('loop on a sum')
            else:
                a, b = next(free), next(free)
                L.blocks[a], L.blocks[b] = ('Sum', '++'), ('Sum', '+-')
                L.lines += [((ins[0], 1), (a, 1)), ((b, 1), (a, 2)), ((a, 1), (b, 1)), ((ins[0], 1), (b, 2))]
                c = next(free)
                L.blocks[c] = ('Sum', '++')
                L.lines += [((a, 1), (c, 1)), ((b, 1), (c, 2))]
                nout = len(outs) + 1
                y = next(free)
                L.blocks[y] = ('Outport', nout)
                L.lines += [((c, 1), (y, 1))]
        elif k == 8:
            what = 'malformed xml'
        else:
            what, exc = 'a sum with more ports than signs', (ValueError, SystemExit, AssertionError)
        for _ in range(rng.choice([0, 1, 2]) if k != 7 else 0):
            wrap(rng, L, lambda: next(free))
        path, xml = slx(rng, L, consts, plain=True)
        if k in (5, 6, 8, 9):
            with zipfile.ZipFile(path) as z:
                name = [n for n in z.namelist() if n.endswith('blockdiagram.xml')][0]
                x = z.read(name).decode('utf-8')
            if k == 5:
                # one of the delays
                parts = x.split('<P Name="DelayLength">1</P>')
                j = rng.randrange(1, len(parts))
                # (the length is that of the file, when it is not written)
                default = rng.random() < 0.4
                if default:
                    x = x.replace('<BlockParameterDefaults>', '<BlockParameterDefaults><Block BlockType="Delay">' + P('DelayLength', str(rng.choice([2, 2, 3]))) + '</Block>')
                    m.seen('default length of the delays')
                    parts = x.split('<P Name="DelayLength">1</P>')
                x = '<P Name="DelayLength">1</P>'.join(parts[:j]) + ('' if default else '<P Name="DelayLength">%d</P>' % rng.choice([0, 2, 3, 10, -1])) + '<P Name="DelayLength">1</P>'.join(parts[j:])
            elif k == 6:
                import re
                x = re.sub(r'<P Name="Gain">\s*[+]?(77|77[.]0*|7[.]70*[eE][+]01)\s*</P>', '<P Name="Gain">77</P>', x)
                if '<P Name="Gain">77</P>' not in x:
                    name77 = [n for n, v in consts.items() if v == 77][0]
                    if name77 == 'inf':
                        return
                    del consts[name77]
                else:
                    x = x.replace('<P Name="Gain">77</P>', '<P Name="Gain">%s</P>' % rng.choice(['nobody', 'a+b', '', '[1 2]']))
            elif k == 9:
                s = x.count('<P Name="Inputs">')
                if s < 2:
                    return
                x = x.replace('<P Name="Inputs">', '<P Name="Inputs">+').replace('<P Name="Inputs">+++</P></Block></BlockParameterDefaults>', '<P Name="Inputs">++</P></Block></BlockParameterDefaults>')
            else:
                x = x[:rng.randint(60, len(x) - 5)] if rng.random() < 0.7 else x.replace('</Block>', '</Blok>', 1)
                from lxml.etree import XMLSyntaxError
                exc = (ValueError, SystemExit, XMLSyntaxError)
            path = os.path.join(d, 'y.slx')
            write(path, x.encode('utf-8'))
    m.case({'refused': what, 'case': i}, nontrivial=True)
    m.raises('refused', exc, lambda: load(path, {k: float(v) for k, v in consts.items()}), '%s should be refused' % what)
    m.seen('refused: ' + what)


def ports(m, rng, i):
    """ports of subsystems that are not connected: refused, or null"""
    G, ins, outs = diagram(rng, general=i % 2 > 0)
    cand = [s for s, g in G.items() if g[0] in ('Sum', 'Gain', 'Delay')]
    if not cand:
        return
    for s in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2]))):
        G[s][2][rng.randrange(len(G[s][2]))] = None
    L = flat(G)
    free = iter([k for k in rng.sample(range(1, 4000), 400) if k not in G])
    for _ in range(rng.choice([1, 1, 2, 3])):
        wrap(rng, L, lambda: next(free))
    done = []

    def walk(X):
        for sub, b in list(X.blocks.items()):
            if b[0] != 'SubSystem':
                continue
            N = b[1]
            d = [x for x in N.dangling if rng.random() < 0.9]
            nin, nout = b[2], b[3]
            for x in d:
                N.dangling.remove(x)
                nin += 1
                s = next(free)
                N.blocks[s] = ('Inport', nin)
                N.lines.append(((s, 1), x))
                done.append('in')
            d = [x for x in X.dangling if rng.random() < 0.7]
            for x in d:
                X.dangling.remove(x)
                nout += 1
                N.blocks[next(free)] = ('Outport', nout)
                X.lines.append(((sub, nout), x))
                done.append('out')
            X.blocks[sub] = ('SubSystem', N, nin, nout)
            walk(N)
    walk(L)
    consts = Consts()
    path, xml = slx(rng, L, consts)
    m.case({'diagram': text(G), 'ports': done}, nontrivial=bool(done))
    try:
        R = load(path, {k: float(v) for k, v in consts.items()})
    except (Exception, SystemExit) as e:
        m.ok('refused', done, 'a legal diagram is refused: %r' % e, xml=xml[:6000])
        m.seen('port of a subsystem: refused')
        return
    m.seen('port of a subsystem: accepted')
    compare(m, rng, R, G, ins, outs, 'outputs', xml=xml[:6000])


SHIPPED = {'direct_form2.slx': None, 'direct_form2_withsub.slx': None, 'lwdf_butter5.slx': None, 'lwdfa_1t.slx': None, 'lwdfa_1t_ssign.slx': None}


def shipped(m, rng, i):
    """the diagrams of the repository, read independently"""
    from lxml import etree
    d = os.path.join(core.REPO, 'fixif', 'Structures', 'test')
    names = sorted(f for f in os.listdir(d) if f.endswith('.slx'))
    if i >= len(names):
        return
    path = os.path.join(d, names[i])
    with zipfile.ZipFile(path) as z:
        x = etree.fromstring(z.read('simulink/blockdiagram.xml'))
    G, subs, wires, consts = {}, {}, {}, {}
    top = x.find('Model').find('System')

    def read(S, owner):
        for b in S.findall('Block'):
            s, t = b.get('SID'), b.get('BlockType')
            par = {e.get('Name'): e.text for e in b.findall('P')}
            if t == 'SubSystem':
                subs[s] = {}
                read(b.find('System'), s)
            elif t in ('Inport', 'Outport') and owner:
                subs[owner][(t, par.get('Port', '1'))] = s
            G[s] = [t, par, owner]
        for l in S.iter('Line'):
            src = [e.text for e in l.findall('P') if e.get('Name') == 'Src'][0]
            for e in l.iter('P'):
                if e.get('Name') == 'Dst':
                    wires[tuple(e.text.split('#in:'))] = tuple(src.split('#out:'))
    read(top, None)

    def source(s, port='1'):
        w = wires[(s, port)]
        while True:
            t = G[w[0]][0]
            if t == 'SubSystem':
                w = wires[(subs[w[0]][('Outport', w[1])], '1')]
            elif t == 'Inport' and G[w[0]][2]:
                w = wires[(G[w[0]][2], G[w[0]][1].get('Port', '1'))]
            else:
                return w[0]
    H = {}
    for s, (t, par, owner) in G.items():
        if t == 'SubSystem' or (owner and t in ('Inport', 'Outport')):
            continue
        if t == 'Sum':
            sg = ''.join(c for c in par['Inputs'] if c in '+-')
            H[s] = ['Sum', sg, [source(s, str(k + 1)) for k in range(len(sg))]]
        elif t == 'Gain':
            v = par.get('Gain', '1')
            try:
                g = F(float(v))
            except ValueError:
                g = consts.setdefault(v, o.dyadic(rng, 4, -2, 1))
            H[s] = ['Gain', g, [source(s)]]
        elif t == 'Inport':
            H[s] = ['Inport', int(par.get('Port', '1')), []]
        else:
            H[s] = [t, int(par.get('Port', '1')), [source(s)]]
    m.case({'shipped': names[i]}, nontrivial=True)
    ins = sorted((s for s in H if H[s][0] == 'Inport'), key=lambda s: H[s][1])
    outs = sorted((s for s in H if H[s][0] == 'Outport'), key=lambda s: H[s][1])
    R = legal(m, path, {k: float(v) for k, v in consts.items()})
    m.seen('shipped')
    N = 20
    U = [[o.dyadic(rng, 5, -1, 3) for _ in ins] for _ in range(N)]
    Y = simulate(H, ins, outs, U)
    got = [s[3] for s in Ref.of(R).run(U)]
    ok = len(got[0]) == len(Y[0]) and all(abs(a - b) <= F(1, 2 ** 40) * (1 + abs(b)) for g, y in zip(got, Y) for a, b in zip(g, y))
    m.ok('outputs', ok, 'the imported realization has not the outputs of the diagram', got=[[float(x) for x in y] for y in got], expected=[[float(x) for x in y] for y in Y])


WORKLOADS = [
    Workload('import', imported, quick=1200, thorough=30000),
    Workload('refusals', refused, quick=160, thorough=2000),
    Workload('ports of subsystems', ports, quick=100, thorough=2000),
    Workload('shipped diagrams', shipped, quick=5, thorough=5),
]
