"""Execution of scenarios against the real library."""
import _thread
import gc
import sys

import numpy as np

from . import alloc, ambient, boot, canon, faults, monitor, sched, seams, world as W


def setup():
    """Once per worker process"""
    boot.boot()
    alloc.load()
    canon.capture_warnings()
    import sparse_ir.adapter
    sparse_ir.adapter.WARN_ACCURACY = False if \
        sparse_ir.adapter.WARN_ACCURACY is False else True
    np.seterr(all='ignore')
    gc.collect()
    gc.freeze()
    gc.disable()
    sys.setswitchinterval(1000.0)
    assert seams.INSTALLED


def build_world(world, objs=None, only=None):
    """Build all recipes; failures are stored as exceptions"""
    objs = {} if objs is None else objs
    for rec in world:
        if rec['name'] in objs:
            continue
        try:
            objs[rec['name']] = W.build(rec, objs)
        except Exception as e:                          # noqa: B902
            objs[rec['name']] = Failed(e)
    return objs


FULL = False            # keep all numbers of what is built, not a digest


class Failed:
    """Stands for an object whose construction raised"""
    def __init__(self, e):
        self.text = (type(e).__name__, canon.message(e))


class Broken(Exception):
    """Operation on an object that could not be built"""


def usable(world, objs):
    """Names of objects that exist, with everything they were built from"""
    bad = {n for n, o in objs.items() if isinstance(o, Failed)}
    return [r['name'] for r in world if r['name'] in objs
            and r['name'] not in bad]


def disturb(s):
    """Put the process-wide random generators into some other state"""
    import random
    import scipy.linalg.interpolative as sli
    random.seed(s)
    np.random.seed(s % 1000)
    np.random.random(s % 7)
    try:
        sli.seed(s % 100000)
        sli.rand(s % 5 + 1)
    except Exception:                                   # noqa: B902
        pass


class Runner:
    """Executes the actions of one client thread"""
    def __init__(self, objs, by, env=None):
        self.objs = objs
        self.by = by
        self.out = []           # outcome per action
        self.raw = {}           # action index -> (ctx, raw result)
        self.bad = []           # violations seen on the way
        self.on_action = None
        self.pool = None
        self.reuse = False
        self.fired = {}         # action -> Fired
        self.full = FULL
        self.shipped = {}       # action -> (names, pickles)
        self.same = []          # "copies" which are the original

    def run(self, actions):
        canon.WARN[_thread.get_ident()] = self.warn = []
        alloc.use()
        for i, a in enumerate(actions):
            if self.on_action is not None:
                self.on_action(self, i, a)
            self.out.append(self.action(a.get('id', i), a))
        return len(actions)

    def action(self, i, a):
        k = a.get('a', 'op')
        if k == 'op':
            return self.do_op(i, a)
        if k == 'make':
            return self.do_make(i, a['rec'], a.get('fault'))
        if k == 'scribble':
            return self.do_scribble(a)
        if k == 'drop':
            self.objs.pop(a['name'], None)
            return ('note', 'drop')
        if k == 'rng':
            disturb(a['s'])
            return ('note', 'rng')
        if k == 'amb':
            ambient.arm(a['s'])
            return ('note', 'amb')
        if k == 'gc':
            gc.collect()
            return ('note', 'gc')
        if k == 'build':
            return self.do_build(i, a)
        if k == 'clone':
            return self.do_clone(a)
        if k == 'vandal':
            return self.do_vandal(a)
        if k == 'ship':
            return self.do_ship(i, a)
        if k == 'fork':
            return self.do_fork(a)
        raise boot.HarnessError(f'unknown action {k}')

    def do_op(self, i, a):
        o = self.objs.get(a['on'])
        if o is None or isinstance(o, Failed):
            return ('skip',)
        ctx = W.Ctx()
        box = []

        f = a.get('fault')

        def fn():
            if f is None:
                r = W.run_op(self.objs, a, self.by, ctx)
            else:
                with faults.inject(f, ctx) as fired:
                    self.fired[i] = fired
                    r = W.run_op(self.objs, a, self.by, ctx)
            box.append(r)
            return r
        snaps = []
        W.enter(ctx)
        ctx.pool, ctx.reuse = self.pool, self.reuse
        ctx.watch = lambda x: snaps.append((x, x.tobytes(), x.shape, x.dtype.str))
        out = canon.outcome(fn)
        for x, b, sh, dt in snaps:
            if x.tobytes() != b or x.shape != sh or x.dtype.str != dt:
                self.bad.append(('argument modified', i))
        self.raw[i] = (ctx, box[0] if box else None, out)
        return out

    def do_make(self, i, rec, f=None):
        for key in ('k', 'sve', 'o'):
            v = rec.get(key)
            if isinstance(v, str) and (v not in self.objs or
                                       isinstance(self.objs[v], Failed)):
                return ('skip',)
        ctx = W.Ctx()
        W.enter(ctx)
        self.objs['#ctx'] = ctx
        try:
            if f is None:
                self.objs[rec['name']] = W.build(rec, self.objs)
            else:
                with faults.inject(f, ctx) as fired:
                    self.fired[i] = fired
                    self.objs[rec['name']] = W.build(rec, self.objs)
            out = ('note', 'made')
        except (Exception, faults.Interrupt) as e:
            self.objs[rec['name']] = Failed(e)
            out = ('exc', type(e).__name__, canon.message(e))
        finally:
            self.objs.pop('#ctx', None)
        self.by[rec['name']] = rec
        self.raw[i] = (ctx, None, None)
        return out

    def do_build(self, i, a):
        """Build something from scratch (or from shared objects), note its
        numbers bit by bit"""
        objs = {n: self.objs[n] for n in a.get('share', ())
                if n in self.objs and not isinstance(self.objs[n], Failed)}
        by = {x['name']: x for x in a['recs']}
        last = a['recs'][-1]

        f = a.get('fault')

        def build():
            for rec in a['recs']:
                if rec['name'] not in objs:
                    objs[rec['name']] = W.build(rec, objs)
            return W.probe_any(objs[last['name']], W.kind_of(last, by))

        def fn():
            if f is None:
                return build()
            with faults.inject(f, W.Ctx()) as fired:
                self.fired[i] = fired
                return build()
        out = canon.outcome(fn)
        if out[0] == 'ret' and not self.full:
            return ('dig', canon.digest(out[1]))
        return out

    def do_clone(self, a):
        """Copy one object, in this process"""
        o = self.objs.get(a['on'])
        if o is None or isinstance(o, Failed):
            return ('skip',)
        try:
            new = clone(o, a['how'])
        except (Exception, faults.Interrupt) as e:
            self.objs[a['as']] = Failed(e)
            return ('exc', type(e).__name__, canon.message(e))
        if type(new) is not type(o):
            return ('exc', 'TypeChanged', type(new).__name__)
        if new is o and a['how'] != 'copy':
            self.same.append(a['as'])
        self.objs[a['as']] = new
        self.by[a['as']] = dict(self.by[a['on']], name=a['as'])
        return ('note', 'cloned')

    def do_vandal(self, a):
        """Overwrite everything an object consists of"""
        o = self.objs.get(a['on'])
        if o is None or isinstance(o, Failed):
            return ('skip',)
        n = vandalise(o, a['deep'])
        return ('note', f'vandalised {n}')

    def do_ship(self, i, a):
        """Serialise objects for another process"""
        objs = {n: self.objs[n] for n in a['on']
                if n in self.objs and not isinstance(self.objs[n], Failed)}
        if not objs:
            return ('skip',)
        import pickle
        try:
            if a['joint']:
                data = pickle.dumps(objs, a['proto'])
            else:
                data = {n: pickle.dumps(o, a['proto']) for n, o in objs.items()}
        except (Exception, faults.Interrupt) as e:
            return ('exc', type(e).__name__, canon.message(e))
        self.shipped[i] = (sorted(objs), data)
        return ('note', 'shipped')

    def do_fork(self, a):
        """Go on in a forked child, report what happens there"""
        from . import proc

        def child():
            monitor.HOOK = None
            sched.ACTIVE = None
            r = Runner(self.objs, self.by)
            r.run(a['acts'])
            return r.out
        st, out = proc.run(child, 60)
        if st == 'err':
            return ('exc', 'Deadlock' if 'sched.Deadlock' in out else 'ForkError',
                    out[-500:])
        if st != 'ok':
            return ('exc', 'Fork' + st, str(out))
        return ('fork', out)

    def do_scribble(self, a):
        got = self.raw.get(a['i'])
        if got is None:
            return ('skip',)
        ctx = got[0]
        n = 0
        for x in (ctx.outs if a['w'] == 'out' else ctx.args):
            if x.flags.writeable and x.size:
                x[...] = np.asarray(a.get('v', 7)).astype(x.dtype)
                n += 1
        self.raw.pop(a['i'])
        return ('note', f'scribbled {n}')

    def recheck(self):
        """Results handed out earlier must still hold the same numbers"""
        for i, (ctx, raw, out) in self.raw.items():
            if out is None or out[0] != 'ret':
                continue
            d = canon.differ(out[1], canon.tree(raw), None)
            if d:
                self.bad.append(('earlier result changed: ' + d, i))


def clone(o, how):
    import copy
    import pickle
    if how == 'copy':
        return copy.copy(o)
    if how == 'deepcopy':
        return copy.deepcopy(o)
    if how == 'deepcopy list':
        return copy.deepcopy([o, {'x': o}])[1]['x']
    if how == 'pypickle':
        import io
        f = io.BytesIO()
        pickle._Pickler(f, 4).dump(o)
        return pickle._loads(f.getvalue())
    return pickle.loads(pickle.dumps(o, int(how)))


def vandalise(o, deep):
    """Overwrite the state of an object of the library; what it is made of too
    if ``deep``.  Returns the number of arrays and attributes destroyed."""
    n = 0
    seen = set()
    todo = [(o, 0)]
    owners = []
    while todo:
        x, depth = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            if deep and x.flags.writeable and x.size:
                x[...] = np.asarray(7).astype(x.dtype)
                n += 1
        elif isinstance(x, (list, tuple)):
            todo += [(y, depth + 1) for y in x]
        elif isinstance(x, dict):
            todo += [(y, depth + 1) for y in x.values()]
        elif type(x).__module__.split('.')[0] == 'sparse_ir' \
                and not isinstance(x, type):
            if depth == 0 or deep:
                owners.append(x)
                todo += [(y, depth + 1) for y in getattr(x, '__dict__', {}).values()]
    for x in owners:
        for k in list(getattr(x, '__dict__', {})):
            try:
                object.__setattr__(x, k, None)
                n += 1
            except Exception:                           # noqa: B902
                pass
    return n


# ------------------------------------------------------------------ threads

def run_threads(objs, by, programs, policy, mode, max_steps=3_000_000,
                interrupt=None, pool=None):
    """Run client programs under the scheduler"""
    runners = [Runner(dict(objs), dict(by)) for _ in programs]
    for r in runners:
        r.pool = pool
    fns = [lambda r=r, p=p: r.run(p) for r, p in zip(runners, programs)]
    s = sched.Scheduler(fns, policy, max_steps)
    monitor.set_mode(mode)

    if interrupt is None:
        def hook(kind, code, off):
            s.point((code, off))
    else:
        tgt, at = interrupt['thread'], interrupt['at']
        exc = interrupt.get('exc', 'kbd')
        state = {'n': 0, 'fired': None}

        def hook(kind, code, off):
            t = s.by_ident.get(_thread.get_ident())
            if t is not None and t.idx == tgt and kind in 'SRJ' \
                    and state['fired'] is None:
                state['n'] += 1
                if state['n'] == at:
                    state['fired'] = monitor.where(code, off)
                    raise faults.Interrupt() if exc == 'kbd' else MemoryError()
            s.point((code, off))
        s.interrupt_state = state
    monitor.HOOK = hook
    try:
        res = s.run()
    finally:
        monitor.HOOK = None
        monitor.set_mode('off')
    return s, runners, res


def count_points(objs, by, program, mode):
    """Locations passed by a program when alone: list of ids"""
    r = Runner(objs, dict(by))
    locs = []
    monitor.set_mode(mode)
    cid = monitor.CODE_ID

    def hook(kind, code, off):
        locs.append((cid.get(code, -1), off))
    monitor.HOOK = hook
    try:
        r.run(program)
    finally:
        monitor.HOOK = None
        monitor.set_mode('off')
    return locs


def count_faults(objs, by, a):
    """Opportunities for faults in one action, as plain data"""
    r = Runner(dict(objs), dict(by))
    ctxs = []
    orig = W.Ctx

    class Ctx(orig):
        def __init__(self):
            super().__init__()
            ctxs.append(self)
    W.Ctx = Ctx
    try:
        with faults.count() as c:
            r.action(0, dict(a, fault=None))
    finally:
        W.Ctx = orig
    return {'points': c.points, 'allocs': int(c.allocs), 'backend': c.backend,
            'warns': c.warns, 'calls': sum(x.calls for x in ctxs)}
