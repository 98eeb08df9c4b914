"""Control of NumPy's array memory (see simalloc.c)."""
import ctypes
import hashlib
import os
import subprocess
import tempfile

from . import boot

PATTERNS = {'zero': 0, 'nan': 1, 'huge': 2, 'plain': 3, 'tiny': 4, 'inf': 5,
            'random': 6}


class Config(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int64) for n in ('armed', 'pattern')] + \
        [('seed', ctypes.c_uint64)] + \
        [(n, ctypes.c_int64) for n in
         ('fail_at', 'fail_count', 'fail_min', 'offset', 'n_alloc', 'n_failed',
          'n_poisoned', 'n_free', 'n_overrun', 'max_size')]


cfg = None
_set = None
_cap = None
_lib = None


def build():
    """Compile the allocator (cached by content) and return the path"""
    src = os.path.join(boot.HERE, 'simalloc.c')
    with open(src, 'rb') as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:12]
    for d in (os.path.join(boot.VERIF, 'build'), tempfile.gettempdir()):
        try:
            os.makedirs(d, exist_ok=True)
            out = os.path.join(d, f'simalloc-{tag}.so')
            if os.path.exists(out):
                return out
            tmp = f'{out}.{os.getpid()}.tmp'
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp, src],
                           check=True, capture_output=True)
            os.rename(tmp, out)
            return out
        except OSError:
            continue
    raise boot.HarnessError('cannot build the simulated allocator')


def load():
    global cfg, _set, _cap, _lib
    if cfg is not None:
        return
    _lib = ctypes.CDLL(build())
    api = ctypes.pythonapi
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    try:
        from numpy._core import _multiarray_umath as mu
    except ImportError:
        from numpy.core import _multiarray_umath as mu
    tab = api.PyCapsule_GetPointer(mu._ARRAY_API, None)
    fn = ctypes.cast(tab, ctypes.POINTER(ctypes.c_void_p))[304]
    _set = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(fn)
    _cap = api.PyCapsule_New(
        ctypes.addressof(ctypes.c_char.in_dll(_lib, 'dst_handler')),
        b'mem_handler', None)
    cfg = Config.in_dll(_lib, 'dst_config')
    use()
    import numpy as np
    try:
        name = np._core.multiarray.get_handler_name(np.empty(3))
    except AttributeError:
        name = np.core.multiarray.get_handler_name(np.empty(3))
    if name != 'dst_simalloc':
        raise boot.HarnessError('allocator seam not in effect')


def use():
    """Install the handler in the current thread's context"""
    _set(_cap)


def disarm():
    cfg.armed = 0
    cfg.fail_at = cfg.fail_count = cfg.fail_min = cfg.offset = 0


def arm(pattern='zero', seed=0, fail_at=0, fail_count=1, fail_min=0, offset=0):
    cfg.pattern = PATTERNS[pattern]
    cfg.seed = seed
    cfg.fail_at = fail_at
    cfg.fail_count = fail_count
    cfg.fail_min = fail_min
    cfg.offset = offset
    cfg.n_alloc = cfg.n_failed = cfg.n_poisoned = cfg.n_free = 0
    cfg.max_size = 0
    cfg.armed = 1
