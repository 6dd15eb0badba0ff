"""Constraints as a user of the library would define them."""
import numpy as np
from paramz import transformations
from paramz.transformations import Transformation
from paramz.domains import _REAL


class Shift(Transformation):
    """No bound, a decreasing line."""
    domain = _REAL

    def f(self, opt_param):
        return 1. - 2. * opt_param

    def finv(self, model_param):
        return (1. - model_param) / 2.

    def gradfactor(self, model_param, dL_dmodel_param):
        return -2. * dL_dmodel_param

    def initialize(self, f):
        return np.array(f, float)

    def __str__(self):
        return 'shift'


class SubLogexp(transformations.Logexp):
    """A constraint made from a built-in one."""


class SubLogistic(transformations.Logistic):
    """A bounded constraint made from the built-in one."""
