"""Deterministic scheduler for caller threads.

Real threads, but only the one holding the baton runs.  At every intercepted
point the scheduler decides, from its own random stream or from a recorded
schedule, who goes on.  Locks the library may create are simulated too, so a
thread that would block gives the baton away and deadlocks are seen.
"""
import _thread
import hashlib
import sys
import threading

ACTIVE = None                    # the scheduler in charge, if any
_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real_alloc = _thread.allocate_lock


class Deadlock(BaseException):
    """Raised inside simulated threads when nobody can go on."""


class StepCap(BaseException):
    """Raised inside simulated threads when the run exceeds its step budget."""


class _T:
    __slots__ = ('idx', 'baton', 'state', 'waiting', 'ident', 'result', 'fn',
                 'thread', 'steps', 'locs')

    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.baton = _real_alloc()
        self.baton.acquire()
        self.state = 'ready'
        self.waiting = None
        self.result = None
        self.ident = None
        self.steps = 0


class Scheduler:
    def __init__(self, fns, policy, max_steps=3_000_000, on_start=None):
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        self.policy = policy
        self.step = 0
        self.max_steps = max_steps
        self.switches = []       # (step, to)
        self.pairs = []          # (from location, to thread)
        self.deadlock = False
        self.capped = False
        self.main = _real_alloc()
        self.main.acquire()
        self.by_ident = {}
        self.cur = None
        self.on_start = on_start
        self.blocks = 0
        self.h = hashlib.blake2b(digest_size=8)

    # -- called from instrumented code of a simulated thread
    def point(self, loc):
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t is not self.cur:
            return
        self.step += 1
        t.steps += 1
        if self.step > self.max_steps:
            self.capped = True
            raise StepCap()
        nxt = self.policy.choose(self, t, loc)
        if nxt is not None and nxt is not t:
            self.pairs.append((loc, nxt.idx))
            self._switch(t, nxt)

    def runnable(self, but=None):
        return [x for x in self.threads
                if x.state == 'ready' and x is not but]

    def _switch(self, t, nxt):
        self.switches.append((self.step, nxt.idx))
        self.h.update(b'%d:%d;' % (self.step, nxt.idx))
        self.cur = nxt
        nxt.baton.release()
        t.baton.acquire()
        if self.deadlock and t.state == 'blocked':
            t.state = 'ready'
            raise Deadlock()

    def outsiders(self):
        return threading.active_count() > len(self.threads) + 1

    def managed(self):
        return self.by_ident.get(_thread.get_ident())

    def block(self, t, lock):
        """Current thread cannot go on until ``lock`` is released"""
        self.blocks += 1
        t.state = 'blocked'
        t.waiting = lock
        cand = self.runnable()
        if not cand:
            self._all_stuck(t)
            return
        nxt = self.policy.on_block(self, t, cand)
        self._switch(t, nxt)

    def _all_stuck(self, t):
        # Nobody can run: everyone is told so, one after the other.
        self.deadlock = True
        t.state = 'ready'
        raise Deadlock()

    def wake(self, lock):
        for x in self.threads:
            if x.state == 'blocked' and x.waiting is lock:
                x.state = 'ready'
                x.waiting = None

    def _body(self, t):
        t.baton.acquire()
        try:
            if self.on_start is not None:
                self.on_start(t)
            t.result = ('ok', t.fn())
        except Deadlock:
            t.result = ('deadlock', None)
        except StepCap:
            t.result = ('stepcap', None)
        except BaseException as e:              # noqa: B902 - reported
            t.result = ('raise', e)
        finally:
            self._finish(t)

    def _finish(self, t):
        t.state = 'done'
        self.by_ident.pop(_thread.get_ident(), None)
        cand = self.runnable()
        if not cand:
            stuck = [x for x in self.threads if x.state == 'blocked']
            if stuck:
                self.deadlock = True
                nxt = stuck[0]
                self.cur = nxt
                nxt.baton.release()
                return
            self.main.release()
            return
        nxt = self.policy.on_finish(self, t, cand)
        self.switches.append((self.step, nxt.idx))
        self.h.update(b'%d:%d;' % (self.step, nxt.idx))
        self.cur = nxt
        nxt.baton.release()

    def run(self):
        global ACTIVE
        ready = _real_alloc()
        ready.acquire()
        for t in self.threads:
            def start(t=t):
                t.ident = _thread.get_ident()
                self.by_ident[t.ident] = t
                ready.release()
                self._body(t)
            t.thread = threading.Thread(target=start, daemon=True)
        for t in self.threads:
            t.thread.start()
            ready.acquire()
        ACTIVE = self
        self.first = first = self.policy.first(self)
        self.cur = first
        first.baton.release()
        self.main.acquire()
        ACTIVE = None
        for t in self.threads:
            t.thread.join(30)
        return [t.result for t in self.threads]

    def digest(self):
        return self.h.hexdigest()


# ---------------------------------------------------------------- policies

class Policy:
    def first(self, s):
        return s.threads[0]

    def choose(self, s, t, loc):
        return None

    def on_block(self, s, t, cand):
        return cand[0]

    def on_finish(self, s, t, cand):
        return cand[0]


class RandomPolicy(Policy):
    """Switch with probability p at every point"""
    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def first(self, s):
        return self.rng.choice(s.threads)

    def choose(self, s, t, loc):
        if self.rng.random() < self.p:
            c = s.runnable(t)
            if c:
                return self.rng.choice(c)
        return None

    def on_block(self, s, t, cand):
        return self.rng.choice(cand)

    on_finish = on_block


class PctPolicy(Policy):
    """Random priorities, changed at d random steps"""
    def __init__(self, rng, n, length, d):
        self.prio = list(range(n))
        rng.shuffle(self.prio)
        self.change = {rng.randint(1, max(1, length)): -i for i in range(1, d + 1)}

    def _best(self, cand):
        return max(cand, key=lambda x: self.prio[x.idx])

    def first(self, s):
        return self._best(s.threads)

    def choose(self, s, t, loc):
        c = self.change.pop(s.step, None)
        if c is not None:
            self.prio[t.idx] = c
        return self._best(s.runnable())

    def on_block(self, s, t, cand):
        return self._best(cand)

    on_finish = on_block


class PreemptPolicy(Policy):
    """Suspend thread ``a`` at its k-th points; others run to the end first"""
    def __init__(self, a, ks, order):
        self.a, self.ks, self.order = a, set(ks), order

    def first(self, s):
        return s.threads[self.a]

    def _next(self, cand):
        for i in self.order:
            for c in cand:
                if c.idx == i:
                    return c
        return cand[0]

    def choose(self, s, t, loc):
        if t.idx == self.a and t.steps in self.ks:
            c = s.runnable(t)
            if c:
                return self._next(c)
        return None

    def on_block(self, s, t, cand):
        return self._next(cand)

    on_finish = on_block


class ReplayPolicy(Policy):
    """Follow a recorded list of (step, thread) switches"""
    def __init__(self, first, switches):
        self.f = first
        self.sw = {}
        for st, to in switches:
            self.sw.setdefault(st, []).append(to)

    def first(self, s):
        return s.threads[self.f % len(s.threads)]

    def _pop(self, s, cand):
        lst = self.sw.get(s.step)
        while lst:
            to = lst.pop(0)
            for c in cand:
                if c.idx == to:
                    return c
        return None

    def choose(self, s, t, loc):
        if s.step in self.sw:
            return self._pop(s, s.runnable())
        return None

    def on_block(self, s, t, cand):
        return self._pop(s, cand) or cand[0]

    on_finish = on_block


# ------------------------------------------------------------------- locks

class SimLock:
    """Stand-in for ``threading.Lock``"""
    def __init__(self):
        self._l = _real_alloc()

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        t = s.managed() if s is not None else None
        if t is None:
            if timeout is None:
                timeout = -1
            if blocking and timeout < 0 and threading.active_count() == 1 \
                    and self._l.locked():
                raise Deadlock()     # the only thread waits for itself
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking or timeout == 0:
                return False
            if timeout is not None and timeout > 0 and not s.runnable(t):
                return False             # nothing else can happen: time passes
            if not s.runnable(t) and s.outsiders():
                # threads not under our control may still release it
                if self._l.acquire(True, 20):
                    return True
            s.block(t, self)
        return True

    def release(self):
        self._l.release()
        s = ACTIVE
        if s is not None:
            s.wake(self)

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock:
    """Stand-in for ``threading.RLock``"""
    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._b._at_fork_reinit()
        self._owner, self._count = None, 0

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


CREATED = [0]


def _from_library():
    f = sys._getframe(2)
    for _ in range(8):
        if f is None:
            return False
        if 'sparse_ir' in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


def _make_lock():
    if _from_library():
        CREATED[0] += 1
        return SimLock()
    return _real_alloc()


def _make_rlock(*a, **k):
    if _from_library():
        CREATED[0] += 1
        return SimRLock()
    return _real_RLock(*a, **k)


def install_locks():
    """Locks created by the library (directly or through Condition, Event,
    Semaphore, ...) become simulated ones; everybody else's stay real."""
    threading.Lock = _make_lock
    threading.RLock = _make_rlock
    threading._allocate_lock = _make_lock
