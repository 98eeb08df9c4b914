"""Seams around the numerical back-ends.

Every back-end routine the library may call is replaced, in the module that
provides it and before the library is imported, by a thin wrapper.  With no
controller installed the wrapper calls straight through.
"""
import functools
import threading

CONTROLLER = None          # object with .call(name, fn, args, kwargs)
INSTALLED = {}
CALLS = {}
_tls = threading.local()


def _wrap(name, fn):
    @functools.wraps(fn)
    def seam(*args, **kwargs):
        ctl = CONTROLLER
        if ctl is None or getattr(_tls, 'inside', 0):
            return fn(*args, **kwargs)
        _tls.inside = 1
        try:
            CALLS[name] = CALLS.get(name, 0) + 1
            return ctl.call(name, fn, args, kwargs)
        finally:
            _tls.inside = 0
    seam.__wrapped_backend__ = fn
    return seam


SVD_NAMES = ('numpy.linalg.svd', 'scipy.linalg.svd', 'interpolative.svd',
             'lapack.dgejsv', 'xprec.svd_trunc', 'xprec.svd')
EIG_NAMES = ('scipy.linalg.eigvalsh_tridiagonal',
             'scipy.linalg.eigh_tridiagonal', 'numpy.linalg.eigvalsh',
             'numpy.linalg.eigh', 'scipy.linalg.eigh', 'scipy.linalg.eigvalsh')
OTHER_NAMES = ('numpy.linalg.lstsq', 'numpy.linalg.pinv', 'numpy.linalg.qr',
               'numpy.linalg.solve', 'numpy.linalg.inv', 'scipy.linalg.qr',
               'scipy.linalg.lstsq', 'scipy.linalg.solve')


def install():
    if INSTALLED:
        return
    import numpy.linalg as nla
    import scipy.linalg as sla
    import scipy.linalg.interpolative as sli
    import scipy.linalg.lapack as slp
    tables = [(nla, 'numpy.linalg', ('svd', 'lstsq', 'pinv', 'qr', 'solve',
                                     'inv', 'eigvalsh', 'eigh')),
              (sla, 'scipy.linalg', ('svd', 'lstsq', 'qr', 'solve', 'eigh',
                                     'eigvalsh', 'eigvalsh_tridiagonal',
                                     'eigh_tridiagonal')),
              (sli, 'interpolative', ('svd',)),
              (slp, 'lapack', ('dgejsv',))]
    try:
        import xprec.linalg as xla
        tables.append((xla, 'xprec', ('svd_trunc', 'svd')))
    except ImportError:
        pass
    for mod, prefix, names in tables:
        for n in names:
            fn = getattr(mod, n, None)
            if fn is None:
                continue
            full = f'{prefix}.{n}'
            w = _wrap(full, fn)
            INSTALLED[full] = (mod, n, fn, w)
            setattr(mod, n, w)


def raw(name):
    return INSTALLED[name][2]
