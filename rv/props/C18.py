# coding: utf-8
"""C18: quantization of the coefficients"""
from fractions import Fraction as F
import numpy
from rv import oracle as o
from rv.core import Workload
from rv.sif import rand_mats, npmats, zmat, shapes, NAMES
from rv.props.C12 import Shadow, rsize, readback, q_dss, q_sim, q_derived, q_tf, q_exact, new_value
from rv.props.C14 import check_run, rand_u
from fixif.SIF import Realization

PROPERTY = 'C18'
RULE = ('random realizations with coefficients of 3 to 53 bits and exponents -40..40 (null ones, powers of two, values rounding up to a power of two, ties of both signs) and structured '
        'ones, quantized on 2..40 bits, then histories of writes, queries and quantizations on the original and on its quantized versions; non-trivial when a coefficient changes')
ASSUMPTIONS = ['the fixed-point constants are those of the stand-in of the (absent) fixif.FxP package: the most significant bit of a coefficient is the smallest whose two\'s complement range holds it once rounded; '
               'a tie may be rounded either way']


def candidates(x, w):
    """acceptable values of x on w bits (two's complement, round to nearest)"""
    if x == 0:
        return {F(0)}
    m = abs(x.numerator).bit_length() - x.denominator.bit_length() - 3
    while not -F(2) ** m <= x < F(2) ** m:
        m += 1
    while True:
        s = F(2) ** (m + 1 - w)
        v = x / s
        f = v.numerator // v.denominator
        d = v - f
        c = {f} if d < F(1, 2) else {f + 1} if d > F(1, 2) else {f, f + 1}
        ok = {a * s for a in c if -F(2) ** m <= a * s < F(2) ** m}
        if ok == {a * s for a in c}:
            return ok
        # rounded up to the bound of the range: one more bit on the left
        s2 = s * 2
        v = x / s2
        f = v.numerator // v.denominator
        d = v - f
        c2 = {f} if d < F(1, 2) else {f + 1} if d > F(1, 2) else {f, f + 1}
        return ok | {a * s2 for a in c2}


def value(rng, w):
    """a coefficient which is interesting on w bits"""
    k = rng.random()
    w = max(w, 2)
    sg = rng.choice([1, -1])
    e = rng.choice([0, 0, 1, -1, -3, rng.randint(-40, 40), rng.randint(-300, 300)])
    if k < 0.15:
        return F(0)
    if k < 0.3:
        return sg * F(2) ** e
    if k < 0.4:         # all ones: rounds up
        b = rng.randint(w, max(45, w))
        return sg * (F(2) ** b - 1) / F(2) ** b * F(2) ** e
    if k < 0.5:         # representable
        return sg * F(rng.randrange(1, 2 ** (w - 1))) * F(2) ** (e - w)
    if k < 0.62:        # a tie
        return sg * (F(rng.randrange(2 ** (w - 2), 2 ** (w - 1))) + F(1, 2)) * F(2) ** (e - w)
    if k < 0.66:        # an integer of nearly w bits
        return sg * F(rng.randrange(1, 2 ** rng.randint(1, w + 3)))
    if k < 0.7:         # an integer of exactly w bits, without its sign
        return sg * F(rng.randrange(2 ** (w - 1), 2 ** w) | 1)
    if k < 0.76:        # just aside of a tie
        return sg * (F(rng.randrange(2 ** (w - 2), 2 ** (w - 1))) + F(1, 2) + rng.choice([1, -1]) * F(1, 2 ** 8)) * F(2) ** (e - w)
    return sg * F(rng.random()) * F(2) ** e


def rand_real(rng, w, tame=False):
    size = rsize(rng)
    mats = rand_mats(rng, *size, bits=rng.choice([4, 12, 20]), rho=F(7, 8))
    if not tame:
        mats = [[[v if (k == 'J' and j >= i) else F(o.todouble(value(rng, w))) for j, v in enumerate(r)] for i, r in enumerate(M)] for k, M in zip(NAMES, mats)]
        if rng.random() < 0.5:
            # several nearly equal coefficients
            x = F(o.todouble(value(rng, w)))
            for k, M in zip(NAMES, mats):
                for i, r in enumerate(M):
                    for j in range(len(r)):
                        if not (k == 'J' and j >= i) and rng.random() < 0.4:
                            r[j] = F(o.todouble(x * rng.choice([1, -1, 1 + F(1, 2 ** rng.randint(2, 50))])))
        # (J remains invertible in double precision)
        mats[0] = [[v if 2.0 ** -45 < abs(v) < 2.0 ** 42 or j == i else F(0) for j, v in enumerate(r)] for i, r in enumerate(mats[0])]
        try:
            numpy.linalg.inv(o.npmat(mats[0], size[0]))
        except numpy.linalg.LinAlgError:
            mats[0] = [[F(int(i == j)) for j in range(size[0])] for i in range(size[0])]
    flags = None
    if rng.random() < 0.3:
        flags = [numpy.matrix(numpy.random.randint(0, 2, s), dtype=float).reshape(s) for s in shapes(*size)]
    R = Realization(None, npmats(mats, size), dJtodS=flags) if flags else Realization(None, npmats(mats, size))
    return R, Shadow(mats, size)


def compare(m, Q, sh, w):
    """the coefficients of the quantized realization -> its shadow"""
    Z, q = zmat(sh.mats(), sh.size), o.fmat(Q.Z)
    m.need('quantized', o.shape(q) == o.shape(Z) and Q.size == sh.size, 'the quantized realization has another size', got=Q.size)
    for i, (a, b) in enumerate(zip(Z, q)):
        for j, (x, y) in enumerate(zip(a, b)):
            c = candidates(x, w)
            m.ok('quantized', y in c, 'a coefficient is not the nearest value on the word-length', w=w, coefficient=float(x), got=float(y), expected=[float(v) for v in c], position=(i, j))
            if x == 0 or (len(c) == 1 and x in c):
                m.ok('kept', x == y, 'a null or representable coefficient is changed', coefficient=float(x), got=float(y))
    return Shadow([o.fmat(x) for x in Q.JtoS], Q.size)


def snapshot(R):
    return [numpy.array(x) for x in (R.Z, R.dZ, R.AZ, R.BZ, R.CZ, R.DZ) + tuple(R.JtoS)]


def same(a, b):
    return all(x.shape == y.shape and numpy.array_equal(x, y) for x, y in zip(a, b))


def single(m, rng, i):
    w = rng.choice([1, 2, 3, 4, 5, 8, 12, 16, 24, 30, 40, 53, 64])
    R, sh = rand_real(rng, w)
    snap = snapshot(R)
    m.case({'quantized on': w, 'size': sh.size}, key=(w, zmat(sh.mats(), sh.size)))
    Q = R.quantize(w)
    m.ok('new object', Q is not R and isinstance(Q, Realization), 'not a new realization')
    shQ = compare(m, Q, sh, w)
    m.ok('original untouched', same(snapshot(R), snap), 'the original realization has been modified')
    m.ok('flags', Q.dZ.shape == R.dZ.shape and Q.dZ is not R.dZ, 'the exactness flags are shared')
    # a second quantization on the same word-length changes nothing (but the ones that were rounded up)
    Q2 = Q.quantize(w)
    m.ok('idempotent', all(y in candidates(x, w) for a, b in zip(o.fmat(Q.Z), o.fmat(Q2.Z)) for x, y in zip(a, b)), 'quantized again, the coefficients change')
    for v in rng.sample([1, 2, w, rng.randint(1, 40)], 2):
        # the same realization again
        compare(m, R.quantize(v), sh, v)
    m.ok('original untouched', same(snapshot(R), snap), 'the original realization has been modified')
    big = Q.quantize(w + 20)
    m.ok('idempotent', o.fmat(big.Z) == o.fmat(Q.Z), 'coefficients representable on w bits change when quantized on more bits')


def history(m, rng, i):
    """the quantized realizations and the original are independent, all the views are those of the quantized coefficients"""
    w = rng.randint(3, 20)
    R, sh = rand_real(rng, w, tame=True)
    objs = [(R, sh, 'original')]
    log = []
    queries = [q_dss, q_sim, q_derived, q_tf, q_exact]
    for _ in range(rng.randint(4, 10)):
        k = rng.randrange(len(objs))
        O, s, nm = objs[k]
        a = rng.choice(['quantize', 'query', 'query', 'set', 'flags'])
        log.append(a[0])
        if a == 'quantize' and len(objs) < 5:
            v = rng.randint(3, 20)
            Q = O.quantize(v)
            objs.append((Q, compare(m, Q, s, v), '%s quantized on %d bits' % (nm, v)))
        elif a == 'query':
            rng.choice(queries)(m, O, s, rng, nm)
        elif a == 'set':
            c = rng.choice(NAMES)
            shape = dict(zip(NAMES, shapes(*s.size)))[c]
            if shape[0] and shape[1]:
                v = new_value(rng, s, c, shape)
                setattr(O, c, o.npmat(v))
                s.d[c] = v
        elif a == 'flags':
            before = [numpy.array(x[0].dZ) for x in objs]
            if rng.random() < 0.5:
                O.dP = numpy.matrix(numpy.random.randint(0, 2, (s.size[1], s.size[1])))
            else:
                O.dZ = numpy.matrix(numpy.random.randint(0, 2, O.dZ.shape))
            m.ok('flags', all(numpy.array_equal(b, x[0].dZ) for j, (b, x) in enumerate(zip(before, objs)) if j != k), 'the flags of a realization change with those of its quantized version')
        for X, sx, n in objs:
            readback(m, X, sx, n)
    for X, sx, n in objs:
        for f in queries:
            f(m, X, sx, rng, n)
    m.case({'history': ''.join(log), 'size': sh.size, 'objects': len(objs)}, nontrivial='q' in log and len(objs) > 1, key=(''.join(log), zmat(sh.mats(), sh.size)))
    m.seen('quantized in a history', len(objs) - 1)


def compiled(m, rng, i):
    """a realization which has been compiled, then quantized: both run with their own coefficients"""
    R, sh = rand_real(rng, 8, tame=True)
    q = sh.size[3]
    w = rng.randint(3, 12)
    m.case({'compiled then quantized': sh.size, 'w': w}, key=zmat(sh.mats(), sh.size))
    check_run(m, R, sh, rand_u(rng, q, 4), 'compiled', 'the original')
    Q = R.quantize(w)
    s = compare(m, Q, sh, w)
    check_run(m, Q, s, rand_u(rng, q, 4), 'compiled', 'the quantized realization')
    check_run(m, R, sh, rand_u(rng, q, 4), 'compiled', 'the original, after its quantized version')


def refusals(m, rng, i):
    R, sh = rand_real(rng, 8)
    snap = snapshot(R)
    bads = rng.sample([0, 0, -1, -8, -1000, 2.5, 8.0, '8', None, [8], numpy.nan], 6)
    m.case({'refused word-length': repr(bads), 'size': sh.size})
    for bad in bads:
        m.raises('refusals', ValueError, lambda: R.quantize(bad), 'word-length %r' % (bad,))
        if rng.random() < 0.3:
            compare(m, R.quantize(4), sh, 4)
    m.ok('original untouched', same(snapshot(R), snap), 'the original realization has been modified')


WORKLOADS = [Workload('single', single, 900, 12000), Workload('history', history, 400, 4000), Workload('compiled', compiled, 40, 300), Workload('refusals', refusals, 40, 400)]
EXPECT = {'quantized': 8000, 'kept': 2000, 'original untouched': 300, 'idempotent': 500, 'flags': 300, 'refusals': 40, 'state-space': 500, 'simulation': 200, 'quantized in a history': 50}
