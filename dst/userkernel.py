"""Kernels as a user of the library writes them."""
import _thread

import numpy as np
from sparse_ir import kernel

# the client call under way in each thread
CTX = {}


class UserKernel(kernel.AbstractKernel):
    """Says nothing about its symmetry"""
    def __init__(self, lambda_):
        self.lambda_ = lambda_

    def __call__(self, x, y, x_plus=None, x_minus=None):
        ctx = CTX.get(_thread.get_ident())
        if ctx is not None:
            ctx.calls += 1
            if ctx.hook is not None:
                ctx.hook(x)
        if x_plus is None:
            x_plus = 1 + x
        if x_minus is None:
            x_minus = 1 - x
        u = .5 * self.lambda_ * np.abs(y)
        return np.exp(-u * np.where(y > 0, x_plus, x_minus)) / (1 + np.exp(-2 * u))

    def sve_hints(self, eps):
        return kernel.LogisticKernel(self.lambda_).sve_hints(eps)


class EvenKernel(UserKernel):
    """Symmetrised by the library's default"""
    @property
    def is_centrosymmetric(self):
        return True

    @property
    def conv_radius(self):
        return 40 * self.lambda_
