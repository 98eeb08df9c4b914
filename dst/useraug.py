"""Augmentations as a user of the library makes them.

A specification is the name of a class of the library (passed as class, or as
instance made by its factory), or ``Class@number`` for an object with a parameter
of its own, made by the user."""
import numpy as np
from sparse_ir import augment


class Scaled(augment.MatsubaraConst):
    """Constant other than one"""
    def __init__(self, beta, c=1.0):
        super().__init__(beta)
        self.c = c

    def hat(self, n):
        return self.c * super().hat(n)


class Pole(augment.AbstractAugmentation):
    """Pole at w/beta, or derivative of it"""
    def __init__(self, beta, w, d=0):
        self.beta, self.w, self.d = beta, w, d

    @classmethod
    def create(cls, basis):
        return cls(basis.beta, 1.0)

    def __call__(self, tau):
        return pole_tau(self.beta, self.w, self.d, np.asarray(tau))

    def deriv(self, n=1):
        return Pole(self.beta, self.w, self.d + n)

    def hat(self, n):
        return pole_hat(self.beta, self.w, np.asarray(n))


def pole_tau(beta, w, d, tau):
    p = w / beta
    x = p * (tau if w > 0 else tau - beta)
    return -(-p)**d * np.exp(-x) / (1 + np.exp(-abs(w)))


def pole_hat(beta, w, n):
    num = np.where(n % 2, 1., np.tanh(.5 * w))
    return num / (1j * n * np.pi / beta - w / beta)


def make(spec, basis, inst=False):
    """What the user passes for a specification"""
    name, _, par = spec.partition('@')
    if not par:
        c = getattr(augment, name)
        return c.create(basis) if inst else c
    c = float(par)
    if name == 'Pole':
        return Pole(basis.beta, c)
    if name == 'Scaled':
        return Scaled(basis.beta, c)
    return getattr(augment, name)(c * basis.beta)


def tau_value(spec, beta, d, t):
    """Value of the d-th derivative, from the definition"""
    t = np.asarray(t, float)
    name, _, par = spec.partition('@')
    c = float(par or 1)
    if name == 'Pole':
        return pole_tau(beta, c, d, t)
    if name in ('Scaled', 'MatsubaraConst'):
        return np.full(t.shape, np.nan)
    b = c * beta
    if name == 'TauConst':
        return np.full(t.shape, 0. if d else 1 / np.sqrt(b))
    if d == 0:
        return np.sqrt(3 / b) * (2 * t / b - 1)
    return np.full(t.shape, np.sqrt(3 / b) * 2 / b if d == 1 else 0.)


def hat_value(spec, beta, n):
    n = np.asarray(n)
    name, _, par = spec.partition('@')
    c = float(par or 1)
    if name == 'Pole':
        return pole_hat(beta, c, n)
    if name == 'Scaled':
        return np.full(n.shape, c + 0j)
    if name == 'MatsubaraConst':
        return np.ones(n.shape, complex)
    b = c * beta
    if name == 'TauConst':
        return np.sqrt(b) * (n == 0) + 0j
    with np.errstate(all='ignore'):
        return np.where(n == 0, 0, np.sqrt(3 / b) * 2 * b
                        / (1j * np.pi * np.where(n == 0, 1, n)))
