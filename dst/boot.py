"""Bring up one process of the simulated system.

Order matters: environment, then the simulator's locks and back-end seams,
then the library from the working tree of the repository.
"""
import os
import sys

ENV = {
    'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'PYTHONDONTWRITEBYTECODE': '1',
}
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.realpath(os.path.join(REPO, 'src'))
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class HarnessError(Exception):
    """The harness, not the library, is at fault."""


def ensure_env():
    """Re-execute with a fixed environment (threads, hash seed)."""
    want = dict(ENV)
    want.setdefault('PYTHONHASHSEED', os.environ.get('PYTHONHASHSEED', '0'))
    if os.environ.get('PYTHONHASHSEED') is None:
        want['PYTHONHASHSEED'] = '0'
    if all(os.environ.get(k) == v for k, v in want.items()):
        return
    os.environ.update(want)
    os.execv(sys.executable, [sys.executable, '-B'] + sys.orig_argv[1:])


_booted = False


def boot():
    global _booted
    if _booted:
        return
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import warnings
    warnings.simplefilter('ignore')
    import numpy, scipy.linalg, scipy.special  # noqa: F401
    import scipy.linalg.interpolative, scipy.integrate  # noqa: F401
    import concurrent.futures, threading, multiprocessing.pool  # noqa: F401
    import logging, decimal, tempfile, uuid, inspect, typing  # noqa: F401
    from . import ambient, seams, sched
    ambient.install(SRC)
    seams.install()
    sched.install_locks()
    import sparse_ir
    real = os.path.realpath(sparse_ir.__file__)
    if not real.startswith(SRC + os.sep):
        raise HarnessError(f'sparse_ir imported from {real}, not from {SRC}')
    import pkgutil, importlib
    for m in pkgutil.iter_modules(sparse_ir.__path__, 'sparse_ir.'):
        importlib.import_module(m.name)
    from . import monitor
    monitor.install(SRC)
    _booted = True
