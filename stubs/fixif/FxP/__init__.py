# coding: utf-8
"""Reference stand-in for the parts of the `fixif.FxP` distribution used by FiXiF
(Constant and FPF); the real one cannot be installed offline."""
from fixif.FxP.FPF import FPF
from fixif.FxP.Constant import Constant
