"""Canonical, picklable form of results, and their comparison."""
import hashlib
import math
import re
import warnings
import _thread

import numpy as np


class Arr:
    """Array in canonical form: float64/complex128/int64/bool parts plus tag"""
    __slots__ = ('tag', 'shape', 'parts')

    def __init__(self, tag, shape, parts):
        self.tag, self.shape, self.parts = tag, shape, parts

    def __reduce__(self):
        return Arr, (self.tag, self.shape, self.parts)

    def raw(self):
        return b'|'.join([self.tag.encode(), repr(self.shape).encode()]
                         + [p.tobytes() for p in self.parts])


def arr(a):
    a = np.asarray(a)
    k = a.dtype.kind
    if k in 'biufcSU':
        return Arr(a.dtype.str, a.shape, (np.array(a, order='C'),))
    if k == 'O':
        return Arr('O', a.shape, (np.array([hash_text(repr(x)) for x in a.ravel()],
                                           dtype=np.uint64),))
    # extended precision: leading and trailing part
    hi = a.astype(np.float64)
    lo = (a - hi.astype(a.dtype)).astype(np.float64)
    return Arr('ddouble', a.shape, (np.ascontiguousarray(hi),
                                    np.ascontiguousarray(lo)))


def hash_text(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), 'big')


def tree(x):
    """Turn a result into nested tuples of primitives and `Arr`"""
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, (float, complex)):
        return arr(x)
    if isinstance(x, (np.ndarray, np.generic)):
        return arr(x)
    if isinstance(x, dict):
        return ('d',) + tuple((k, tree(x[k])) for k in sorted(x))
    if isinstance(x, (tuple, list)):
        return ('t',) + tuple(tree(y) for y in x)
    if hasattr(x, 'dtype') and hasattr(x, 'shape'):
        return arr(x)
    if isinstance(x, type):
        return ('type', x.__qualname__)
    try:
        return arr(np.asarray(x)) if np.asarray(x).dtype.kind != 'O' else \
            ('obj', type(x).__qualname__)
    except Exception:                                   # noqa: B902
        return ('obj', type(x).__qualname__)


def digest(t):
    """Bitwise digest of a tree"""
    h = hashlib.blake2b(digest_size=10)

    def rec(y):
        if isinstance(y, Arr):
            h.update(b'A' + y.raw())
        elif isinstance(y, tuple):
            h.update(b'(')
            for z in y:
                rec(z)
            h.update(b')')
        else:
            h.update(repr(y).encode() + b';')
    rec(t)
    return h.hexdigest()


def leaves(t, path=''):
    if isinstance(t, Arr):
        yield path, t
    elif isinstance(t, tuple):
        for i, z in enumerate(t):
            yield from leaves(z, f'{path}/{i}')
    else:
        yield path, t


def _close(a, b, tol):
    """None if close, else description.  a is the reference."""
    if a.shape != b.shape:
        return f'shape {b.shape} instead of {a.shape}'
    if a.tag != b.tag:
        return f'dtype {b.tag} instead of {a.tag}'
    p, q = a.parts[0], b.parts[0]
    if p.dtype.kind in 'biuSU':
        if (p == q).all():
            return None
        i = int((p != q).ravel().argmax())
        return f'item {i}: {q.ravel()[i]!r} instead of {p.ravel()[i]!r}'
    if p.tobytes() == q.tobytes():
        return None
    with np.errstate(all='ignore'):
        fp, fq = np.isfinite(p), np.isfinite(q)
        bad = fp != fq
        if bad.any():
            i = int(bad.ravel().argmax())
            return f'item {i}: {q.ravel()[i]!r} instead of {p.ravel()[i]!r}'
        nf = ~fp
        if nf.any():
            pn, qn = p[nf], q[nf]
            same = (pn == qn) | (np.isnan(pn) & np.isnan(qn))
            if not same.all():
                i = int((~same).argmax())
                return f'non-finite {qn[i]!r} instead of {pn[i]!r}'
        p, q = p[fp], q[fp]
        if not p.size:
            return None
        scale = float(np.abs(p).max())
        d = np.abs(q - p)
        if not (d <= tol * scale).all():
            i = int(d.argmax())
            return (f'item {i}: {q.ravel()[i]!r} instead of {p.ravel()[i]!r} '
                    f'(difference {d.max():.3g}, scale {scale:.3g})')
    return None


def differ(ref, got, tol=1e-11):
    """None if the two trees agree up to rounding, else a description"""
    if isinstance(ref, Arr) or isinstance(got, Arr):
        if not (isinstance(ref, Arr) and isinstance(got, Arr)):
            return f'{short(got)} instead of {short(ref)}'
        if tol is None:
            if ref.raw() != got.raw():
                return _close(ref, got, 0) or 'different bits'
            return None
        return _close(ref, got, tol)
    if isinstance(ref, tuple) and isinstance(got, tuple):
        if len(ref) != len(got):
            return f'{len(got)} parts instead of {len(ref)}'
        for i, (a, b) in enumerate(zip(ref, got)):
            d = differ(a, b, tol)
            if d:
                return f'[{i}] {d}' if not d.startswith('[') else f'[{i}]{d}'
        return None
    if ref == got or (ref != ref and got != got):
        return None
    return f'{short(got)} instead of {short(ref)}'


def short(x):
    if isinstance(x, Arr):
        v = x.parts[0].ravel()[:3]
        return f'array{x.shape}[{", ".join(repr(z) for z in v.tolist())}..]'
    s = repr(x)
    return s if len(s) < 120 else s[:117] + '...'


# --------------------------------------------------------------- outcomes

WARN = {}                     # thread id -> list of (category, text)
ON_WARN = None                # called first; may raise


def _show(message, category, filename, lineno, file=None, line=None):
    if ON_WARN is not None:
        ON_WARN(message, category, filename)
    lst = WARN.get(_thread.get_ident())
    if lst is not None:
        lst.append((category.__name__, str(message)[:200], filename))


def capture_warnings():
    """From now on every warning is recorded with the thread issuing it"""
    warnings.resetwarnings()
    warnings.simplefilter('always')
    warnings.showwarning = _show


_num = re.compile(r'0x[0-9a-f]+|[-+]?\d[\d.]*(e[-+]?\d+)?')


def message(e):
    try:
        s = str(e)
    except Exception:                                   # noqa: B902
        s = '<unprintable>'
    return _num.sub('#', s)[:200]


def outcome(fn):
    """Run ``fn`` and return ('ret', tree) or ('exc', type, message)"""
    try:
        r = fn()
    except (Exception, KeyboardInterrupt) as e:
        return ('exc', type(e).__name__, message(e))
    return ('ret', tree(r))


def outcome_differ(ref, got, tol=1e-11):
    if ref[0] != got[0]:
        return f'{describe(got)} instead of {describe(ref)}'
    if ref[0] == 'exc':
        if ref[1:] != got[1:]:
            return f'{describe(got)} instead of {describe(ref)}'
        return None
    return differ(ref[1], got[1], tol)


def describe(o):
    if o is None:
        return 'nothing'
    if o[0] == 'exc':
        return f'{o[1]}: {o[2]}'
    if o[0] == 'ret':
        return 'returned ' + short(o[1])
    return short(o)


def finite_max(t):
    m = 0.0
    for _, x in leaves(t):
        if isinstance(x, Arr) and x.parts[0].dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                v = np.abs(x.parts[0])
                v = v[np.isfinite(v)]
                if v.size:
                    m = max(m, float(v.max()))
    return m


def has_nan(t):
    for _, x in leaves(t):
        if isinstance(x, Arr) and x.parts[0].dtype.kind in 'fc':
            if not np.isfinite(x.parts[0]).all():
                return True
    return False


def isnan(x):
    return isinstance(x, float) and math.isnan(x)
