# coding: utf-8
"""Exact-rational stand-in for the few PythonSollya entry points FiXiF uses for pure
conversions (the real sollya cannot be installed offline).  Numbers are exact Fractions;
`round` implements correctly rounded prec-bit floating point (unbounded exponent)."""
from fractions import Fraction
import math

RN, RD, RU, RZ = 'RN', 'RD', 'RU', 'RZ'


def _F(x):
	if isinstance(x, SollyaObject):
		return x.value
	if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
		raise ValueError("sollya stand-in: not a finite number")
	return Fraction(x)


def _cmp(x):
	# (the infinities compare)
	return x if isinstance(x, float) and math.isinf(x) else _F(x)


class SollyaObject(object):
	__slots__ = ('value',)

	def __init__(self, x):
		self.value = _F(int(x) if type(x).__name__ in ('int64', 'int32', 'mpz') else x)

	def __add__(self, o): return SollyaObject(self.value + _F(o))
	__radd__ = __add__
	def __sub__(self, o): return SollyaObject(self.value - _F(o))
	def __rsub__(self, o): return SollyaObject(_F(o) - self.value)
	def __mul__(self, o): return o * self.value if isinstance(o, _Poly) else SollyaObject(self.value * _F(o))
	__rmul__ = __mul__
	def __truediv__(self, o): return SollyaObject(self.value / _F(o))
	def __rtruediv__(self, o): return SollyaObject(_F(o) / self.value)
	def __neg__(self): return SollyaObject(-self.value)
	def __abs__(self): return SollyaObject(abs(self.value))

	def __pow__(self, o):
		e = _F(o)
		if e.denominator != 1:
			return _realpow(self.value, e)
		return SollyaObject(self.value ** int(e))

	def __rpow__(self, b):
		e = self.value
		if e.denominator != 1:
			return _realpow(_F(b), e)
		return SollyaObject(_F(b) ** int(e))

	def __float__(self): return self.value.numerator / self.value.denominator
	def __int__(self): return int(self.value)
	def __eq__(self, o): return self.value == _cmp(o)
	def __lt__(self, o): return self.value < _cmp(o)
	def __le__(self, o): return self.value <= _cmp(o)
	def __gt__(self, o): return self.value > _cmp(o)
	def __ge__(self, o): return self.value >= _cmp(o)
	def __hash__(self): return hash(self.value)
	def __repr__(self): return 'Sollya(%s)' % self.value
	__str__ = __repr__


def round(x, prec, mode=RN):
	f = _F(x)
	if f == 0:
		return SollyaObject(0)
	s, a = (1, f) if f > 0 else (-1, -f)
	e = a.numerator.bit_length() - a.denominator.bit_length()
	if a < Fraction(2) ** e:
		e -= 1
	u = Fraction(2) ** (e - int(prec) + 1)
	m = a / u
	lo = m.numerator // m.denominator
	r = m - lo
	if mode == RN:
		up = r > Fraction(1, 2) or (r == Fraction(1, 2) and lo % 2 == 1)
	elif mode == RZ:
		up = False
	elif mode == RU:
		up = r > 0 and s > 0
	else:
		up = r > 0 and s < 0
	return SollyaObject(s * (lo + (1 if up else 0)) * u)


def suppressmessage(*_):
	return None


def _realpow(b, e):
	"""b**e, within 2**-250 (a rational)"""
	import mpmath
	with mpmath.workprec(300):
		r = mpmath.power(mpmath.mpf(b.numerator) / b.denominator, mpmath.mpf(e.numerator) / e.denominator)
		man, ex = mpmath.frexp(r)
		return SollyaObject(Fraction(int(mpmath.ldexp(man, 300))) * Fraction(2) ** (int(ex) - 300))


class _Poly(object):
	"""polynomials with exact coefficients (low degrees first)"""
	def __init__(self, c): self.c = list(c)
	def __pow__(self, k):
		r = _Poly([Fraction(1)])
		for _ in range(int(k)):
			r = r * self
		return r
	def __mul__(self, o):
		if not isinstance(o, _Poly):
			return _Poly([a * _F(o) for a in self.c])
		r = [Fraction(0)] * (len(self.c) + len(o.c) - 1)
		for i, a in enumerate(self.c):
			for j, b in enumerate(o.c):
				r[i + j] += a * b
		return _Poly(r)
	__rmul__ = __mul__
	def __add__(self, o):
		d = o.c if isinstance(o, _Poly) else [_F(o)]
		n = max_(len(self.c), len(d))
		return _Poly([(self.c[i] if i < len(self.c) else 0) + (d[i] if i < len(d) else 0) for i in range(n)])
	__radd__ = __add__


max_ = max
_x_ = _Poly([Fraction(0), Fraction(1)])


def horner(p):
	return p


class Interval(object):
	def __init__(self, a, b):
		self.a, self.b = SollyaObject(a), SollyaObject(b)


def inf(x): return x.a if isinstance(x, Interval) else SollyaObject(x)
def sup(x): return x.b if isinstance(x, Interval) else SollyaObject(x)


def max(*args):
	return SollyaObject(max_(_F(a) for a in args))


class _Pi(object):
	pass


pi = _Pi()


def execute(_name):
	return None


def _check(num, den, constraints, _prec):
	"""numerical stand-in of checkModulusFilterInSpecification: the modulus over each band, on a grid refined around its extrema"""
	import numpy
	b = numpy.array([float(SollyaObject(c)) for c in num.c])[::-1]
	a = numpy.array([float(SollyaObject(c)) for c in den.c])[::-1]

	def mod(w):
		z = numpy.exp(1j * numpy.pi * w)
		return numpy.abs(numpy.polyval(b, z) / numpy.polyval(a, z))
	results = []
	for s in constraints:
		if s['omegaFactor'] is not pi:
			raise ValueError("sollya stand-in: frequencies should be multiples of pi")
		lo, hi = float(inf(s['Omega'])), float(sup(s['Omega']))
		binf, bsup = SollyaObject(s['betaInf']), SollyaObject(s['betaSup'])
		w = numpy.linspace(lo, hi, 2000)
		h = mod(w)
		ext = []
		for k in (int(numpy.argmax(h)), int(numpy.argmin(h))):
			v = numpy.linspace(w[max_(k - 1, 0)], w[min(k + 1, len(w) - 1)], 2000)
			g = mod(v)
			ext.append(g.max() if not ext else g.min())
		issue = [{'H': Interval(x * (1 - 1e-13), x * (1 + 1e-13)), 'specification': s} for x in ext if not binf <= x <= bsup]
		results.append({'okay': not issue, 'issue': issue, 'specification': s})
	return {'okay': all(r['okay'] for r in results), 'results': results}


def parse(name):
	return {'checkModulusFilterInSpecification': _check, 'presentResults': lambda r: None}[name]
