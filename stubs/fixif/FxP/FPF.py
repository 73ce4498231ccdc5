# coding: utf-8
class FPF(object):
	"""Fixed-Point Format (2's complement when signed): bits from msb down to lsb"""
	def __init__(self, wl=None, msb=None, lsb=None, signed=True):
		if msb is None:
			msb = wl + lsb - 1
		if lsb is None:
			lsb = msb - wl + 1
		self._msb, self._lsb, self._signed = int(msb), int(lsb), bool(signed)

	@property
	def msb(self):
		return self._msb

	@property
	def lsb(self):
		return self._lsb

	@property
	def wl(self):
		return self._msb - self._lsb + 1

	@property
	def signed(self):
		return self._signed

	def wml(self):
		return self.wl, self.msb, self.lsb

	def __repr__(self):
		return "FPF(msb=%d, lsb=%d)" % (self._msb, self._lsb)

	def LaTeX(self, x_shift=0, y_origin=0, colors=None, hatches=None, **extra):
		return "\t%%FPF msb=%d lsb=%d x=%r y=%.6f hatches=%r" % (self._msb, self._lsb, x_shift, y_origin, hatches)
