# coding: utf-8
from fractions import Fraction
from fixif.FxP.FPF import FPF


def _floorlog2(f):
	"""floor(log2(f)) of a positive Fraction"""
	e = f.numerator.bit_length() - f.denominator.bit_length()
	return e if f >= Fraction(2) ** e else e - 1


class Constant(object):
	"""A real constant rounded to nearest on wl bits, 2's complement (the msb is the
	position of the sign bit, so -2^msb <= approx < 2^msb)"""
	def __init__(self, value, wl=None, signed=True, fpf=None, name=None):
		self._value = float(value)
		f = Fraction(self._value)
		if fpf is not None:
			msb, lsb = fpf.msb, fpf.lsb
			mant = round(f / Fraction(2) ** lsb)
		else:
			if wl is None or wl < 1:
				raise ValueError("Constant: the word-length should be a positive integer")
			if f == 0:
				raise ValueError("Constant: the zero constant has no format")
			msb = _floorlog2(abs(f)) + (1 if signed else 0)
			if signed and f < 0 and -f == Fraction(2) ** (msb - 1):
				msb -= 1
			lsb = msb - wl + 1
			mant = round(f / Fraction(2) ** lsb)
			hi = 2 ** (wl - 1) - 1 if signed else 2 ** wl - 1
			lo = -2 ** (wl - 1) if signed else 0
			if mant > hi or mant < lo:
				msb, lsb = msb + 1, lsb + 1
				mant = round(f / Fraction(2) ** lsb)
		self._mantissa = mant
		self._FPF = FPF(msb=msb, lsb=lsb, signed=signed)

	@property
	def value(self):
		return self._value

	@property
	def mantissa(self):
		return self._mantissa

	@property
	def FPF(self):
		return self._FPF

	@property
	def approx(self):
		return float(self._mantissa * Fraction(2) ** self._FPF.lsb)
