"""Simulated surroundings of the library: clocks, entropy, machine.

Reads of clocks, of the operating system's entropy and of the shape of the
machine made by library code are answered from here (wrappers are put in place
before the library is imported; the harness itself and other packages see the
real thing).  ``arm(None)`` is an idle machine: a clock advancing by a
microsecond per reading.  ``arm(seed)`` chooses a regime: slow or stalled
machine, jumps of the clocks, other number of processors, other process id.
"""
import os
import random
import sys
import time

READS = {}
SRC = None
_real = {}


class Machine:
    def __init__(self, seed=None):
        self.now = 1000.0               # monotonic, in seconds
        self.wall = 1.7e9
        self.step = 1e-6
        self.jump_at = None
        self.jump = 0.0
        self.cpus = 8
        self.pid = 4242
        self.reads = 0
        self.entropy = random.Random(f'entropy{seed}')
        self.regime = 'idle'
        if seed is None:
            return
        r = random.Random(f'machine{seed}')
        self.regime = r.choice(['idle', 'slow', 'stalled', 'jump', 'jump'])
        self.now = r.choice([.01, 1000.0, 3e7])
        self.wall = r.choice([0.0, 1.7e9, 2.2e9])
        if self.regime == 'slow':
            self.step = 10.0**r.uniform(-3, 1)
        elif self.regime == 'stalled':
            self.step = 10.0**r.uniform(2, 5)
        elif self.regime == 'jump':
            self.jump_at = r.choice([1, 2, 3, 5, 10, 30])
            self.jump = r.choice([-1, 1]) * 10.0**r.uniform(0, 6)
        self.cpus = r.choice([1, 2, 3, 8, 64])
        self.pid = r.randrange(2, 1 << 22)

    def tick(self):
        self.reads += 1
        self.now += self.step
        self.wall += self.step
        if self.reads == self.jump_at:
            # the wall clock may be set back, the others never go back
            self.wall += self.jump
            self.now += max(self.jump, 0.0)


MACHINE = Machine()


def arm(seed=None):
    global MACHINE
    MACHINE = Machine(seed)


def _ours(depth=2):
    f = sys._getframe(depth)
    return SRC is not None and f.f_code.co_filename.startswith(SRC)


def _count(name):
    READS[name] = READS.get(name, 0) + 1


def _patch(mod, name, answer):
    fn = getattr(mod, name, None)
    if fn is None:
        return
    _real[mod.__name__, name] = fn

    def seam(*args, **kwargs):
        if not _ours():
            return fn(*args, **kwargs)
        _count(name)
        return answer(*args, **kwargs)
    seam.__name__ = name
    seam.__wrapped__ = fn
    setattr(mod, name, seam)


def _clock(attr, scale):
    def answer():
        MACHINE.tick()
        x = getattr(MACHINE, attr)
        return int(x * 1e9) if scale else x
    return answer


def _entropy(n):
    return MACHINE.entropy.getrandbits(8 * n).to_bytes(n, 'little') if n else b''


def _sleep(s):
    MACHINE.tick()
    MACHINE.now += s
    MACHINE.wall += s


def install(src):
    global SRC
    if SRC is not None:
        return
    SRC = src + os.sep
    for n in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
        _patch(time, n, _clock('now', False))
        _patch(time, n + '_ns', _clock('now', True))
    _patch(time, 'time', _clock('wall', False))
    _patch(time, 'time_ns', _clock('wall', True))
    _patch(time, 'sleep', _sleep)
    _patch(os, 'cpu_count', lambda: MACHINE.cpus)
    _patch(os, 'getpid', lambda: MACHINE.pid)
    _patch(os, 'getloadavg', lambda: (MACHINE.step * 100,) * 3)
    _patch(os, 'sched_getaffinity', lambda pid: set(range(MACHINE.cpus)))
    _patch(os, 'urandom', _entropy)
    _patch(os, 'getrandom', lambda n, flags=0: _entropy(n))
    # Generators without a seed ask the operating system through these names
    real = random._urandom

    def urandom(n):
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_filename.startswith(SRC):
                _count('urandom')
                return _entropy(n)
            f = f.f_back
        return real(n)
    random._urandom = urandom
