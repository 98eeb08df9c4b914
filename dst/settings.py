"""Fingerprint of process-wide and per-thread settings."""
import decimal
import gc
import hashlib
import locale
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

SIGS = sorted(s for s in signal.valid_signals())


def _h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


def thread_settings():
    """Settings kept per thread (or per context)"""
    import scipy.special as sp
    return {
        'floating-point errors (NumPy)': tuple(sorted(np.geterr().items())),
        'floating-point error callback': repr(np.geterrcall()),
        'ufunc buffer size': np.getbufsize(),
        'floating-point errors (SciPy)': tuple(sorted(sp.geterr().items())),
        'print options': repr(sorted(np.get_printoptions().items(), key=str)),
        'decimal context': repr(decimal.getcontext()),
        'trace function': repr(sys.gettrace()),
        'profile function': repr(sys.getprofile()),
    }


def _filters():
    return tuple((f[0], getattr(f[1], 'pattern', f[1]), f[2].__name__,
                  getattr(f[3], 'pattern', f[3]), f[4]) for f in warnings.filters)


def _sli_state():
    """First numbers the SciPy generator would give, without advancing it"""
    import scipy.linalg.interpolative as sli
    try:
        return repr(sli.rand(3))
    except Exception:                                   # noqa: B902
        return None


def _fds():
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            out.append((int(n), os.readlink(f'/proc/self/fd/{n}')))
        except OSError:
            pass
    return tuple(sorted(x for x in out if not x[1].endswith('/fd')))


def process_settings():
    st = np.random.get_state()
    return {
        'warning filters': _filters(),
        'warning display': (id(warnings.showwarning), id(warnings.formatwarning)),
        'random stream of Python': _h(random.getstate()),
        'random stream of NumPy': _h((st[0], st[1].tobytes(), st[2:])),
        'environment': _h(sorted(os.environ.items())),
        'working directory': os.getcwd(),
        'signal handlers': _h([(s, repr(signal.getsignal(s))) for s in SIGS]),
        'signal mask': _h(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ()))),
        'timers': (signal.getitimer(signal.ITIMER_REAL)[0] > 0,
                   signal.getitimer(signal.ITIMER_VIRTUAL)[0] > 0,
                   signal.getitimer(signal.ITIMER_PROF)[0] > 0),
        'open files': _fds(),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook),
                  id(sys.unraisablehook)),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': round(sys.getswitchinterval(), 6),
        'integer digits limit': sys.get_int_max_str_digits(),
        'locale': locale.setlocale(locale.LC_ALL),
        'garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'running threads': tuple(sorted(
            t.name for t in threading.enumerate()
            if not getattr(t, '_dst', False))),
        'module path': tuple(sys.path),
    }


def scipy_stream():
    """To be called once only: it advances the stream"""
    return _sli_state()


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def compare(a, b):
    """Name of the first setting that differs"""
    for k in a:
        if a[k] != b.get(k):
            x, y = repr(a[k]), repr(b.get(k))
            return k, f'{k}: {y[:150]} instead of {x[:150]}'
    return None
