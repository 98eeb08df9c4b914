"""Faults injected into single calls.

A fault is JSON: ``{"kind":..., "at": n, ...}``; the n-th opportunity inside
the call is hit.

 kbd      KeyboardInterrupt at a place where CPython checks for signals
 mem      MemoryError at such a place
 alloc    NumPy array allocation fails (``count`` times from the n-th on)
 backend  a linear-algebra routine raises (``exc``)
 warn     the n-th warning is turned into an error (``-W error``)
 cb       the user's callback raises at its n-th call
"""
import contextlib

import numpy as np

from . import alloc, canon, monitor, seams


class Interrupt(KeyboardInterrupt):
    """Injected interrupt"""


class CallbackError(Exception):
    """Raised by the simulated user's callback"""


KINDS = ('kbd', 'mem', 'alloc', 'backend', 'warn', 'cb')


class Counter:
    """Number of opportunities for each kind of fault in a call"""
    def __init__(self):
        self.points = []
        self.allocs = 0
        self.backend = []
        self.warns = 0
        self.calls = 0


class _Ctl:
    def __init__(self, at=None, exc=None, log=None):
        self.n = 0
        self.at, self.exc, self.log = at, exc, log
        self.fired = None

    def call(self, name, fn, args, kwargs):
        self.n += 1
        if self.log is not None:
            self.log.append(name)
        if self.at is not None and self.n == self.at:
            self.fired = name
            raise {'LinAlgError': np.linalg.LinAlgError('SVD did not converge'),
                   'MemoryError': MemoryError(),
                   'ValueError': ValueError('array must not contain infs or NaNs'),
                   }[self.exc]
        return fn(*args, **kwargs)


@contextlib.contextmanager
def count(ctx_sink=None):
    """Count opportunities in the enclosed call"""
    c = Counter()
    log = []
    seams.CONTROLLER = _Ctl(log=log)
    cid = monitor.CODE_ID
    pts = c.points

    def hook(kind, code, off):
        if kind in 'SRJ':
            pts.append((cid.get(code, -1), off))
    w = [0]
    canon.ON_WARN = lambda *a: w.__setitem__(0, w[0] + 1)
    monitor.set_mode('call')
    monitor.HOOK = hook
    alloc.arm('plain')
    try:
        yield c
    finally:
        monitor.HOOK = None
        monitor.set_mode('off')
        c.allocs = alloc.cfg.n_alloc
        c.backend = log
        c.warns = w[0]
        seams.CONTROLLER = None
        canon.ON_WARN = None


class Fired:
    def __init__(self):
        self.at = None


@contextlib.contextmanager
def inject(f, ctx=None):
    """Inject one fault into the enclosed call"""
    fired = Fired()
    kind, at = f['kind'], f['at']
    if kind in ('kbd', 'mem'):
        n = [0]

        def hook(k, code, off):
            if k in 'SRJ' and fired.at is None:
                n[0] += 1
                if n[0] == at:
                    fired.at = monitor.where(code, off)
                    raise Interrupt() if kind == 'kbd' else MemoryError()
        monitor.set_mode('call')
        monitor.HOOK = hook
        try:
            yield fired
        finally:
            monitor.HOOK = None
            monitor.set_mode('off')
    elif kind == 'alloc':
        alloc.arm('plain', fail_at=at, fail_count=f.get('count', 1))
        try:
            yield fired
        finally:
            if alloc.cfg.n_failed:
                fired.at = f'allocation {at}'
            alloc.arm('plain')
    elif kind == 'backend':
        ctl = _Ctl(at, f.get('exc', 'LinAlgError'))
        seams.CONTROLLER = ctl
        try:
            yield fired
        finally:
            seams.CONTROLLER = None
            fired.at = ctl.fired
    elif kind == 'warn':
        n = [0]

        def onwarn(message, category, filename):
            n[0] += 1
            if n[0] == at:
                fired.at = f'warning {category.__name__}'
                raise message if isinstance(message, Warning) else category(message)
        canon.ON_WARN = onwarn
        try:
            yield fired
        finally:
            canon.ON_WARN = None
    elif kind == 'cb':
        n = [0]

        def cb(x):
            n[0] += 1
            if n[0] == at:
                fired.at = f'callback call {at}'
                raise CallbackError()
            return None
        ctx.hook = cb
        yield fired
    else:
        raise ValueError(kind)


def choose(r, cnt, seen, kinds=KINDS):
    """Random fault among those possible, places chosen evenly"""
    from .checks import common as C
    opts = []
    if cnt['points']:
        opts += ['kbd'] * 4 + ['mem'] * 2
    if cnt['allocs']:
        opts += ['alloc'] * 3
    if cnt['backend']:
        opts += ['backend'] * 3
    if cnt['warns']:
        opts += ['warn'] * 6
    if cnt['calls']:
        opts += ['cb'] * 5
    opts = [o for o in opts if o in kinds]
    if not opts:
        return None
    k = r.choice(opts)
    f = {'kind': k}
    if k in ('kbd', 'mem'):
        f['at'] = C.stratified(r, cnt['points'], seen, 1)[0]
    elif k == 'alloc':
        f['at'] = r.randint(1, cnt['allocs'])
        f['count'] = r.choice([1, 1, 2, 1000000])
    elif k == 'backend':
        f['at'] = r.randint(1, len(cnt['backend']))
        f['exc'] = r.choice(['LinAlgError', 'LinAlgError', 'MemoryError',
                             'ValueError'])
    elif k == 'warn':
        f['at'] = r.randint(1, cnt['warns'])
    else:
        f['at'] = r.randint(1, cnt['calls'])
    return f
