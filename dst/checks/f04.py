"""F04: process-wide settings are left alone."""
import gc
import json
import locale
import os
import random
import signal
import sys

import numpy as np

from .. import alloc, canon, execute as E, faults, proc, sched, settings, world as W
from . import c01, common as C, faulty

PROP = 'F04'
HOT = True
PLAN = {'quick': (800, 75), 'thorough': (40000, 780)}
RULE = ('A case is one execution on a random world in which process-wide and '
        'per-thread settings were first put into an unusual state chosen by '
        'the seed; then calls and constructions run, undisturbed, cut short by '
        'an injected fault (as in F01), or on 2-3 threads under the seeded '
        'scheduler with or without a fault. The settings (floating-point '
        'errors, warning filters and display, three random streams, print '
        'options, environment, directory, signal handlers and mask, timers, '
        'open files, streams and hooks, locale, threads, interpreter limits) '
        'are compared before and after every action (one thread) or before '
        'and after the whole overlap (several threads; per-thread settings '
        'after every action). Non-trivial: at least one call entered the '
        'library. Distinct: by case.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec',
        'Python warnings, random, signal']
STUB = ['NumPy array allocator (fails on demand)',
        'numerical back-ends when made to raise (otherwise real)',
        'thread scheduler in cases with several threads']
ASSUME = ['settings not listed are not looked at',
          'temporary changes inside a call are allowed, as long as they are '
          'undone when the last overlapping call has ended']


def disturb(seed):
    """An unusual but legal state of the process"""
    import decimal
    import warnings
    r = random.Random(seed)
    E.disturb(seed)
    modes = r.choice([['ignore'], ['ignore', 'warn'], ['ignore', 'warn', 'call'],
                      ['ignore', 'warn', 'raise']])
    np.seterr(**{k: r.choice(modes)
                 for k in ('divide', 'over', 'under', 'invalid')})
    np.seterrcall(_callback)
    np.set_printoptions(precision=r.randint(3, 12), threshold=r.choice([10, 1000]))
    decimal.getcontext().prec = r.choice([28, 30])
    for _ in range(r.randrange(3)):
        warnings.filterwarnings(r.choice(['always', 'default', 'ignore']),
                                category=r.choice([DeprecationWarning,
                                                   RuntimeWarning, ImportWarning]))


    if r.random() < .5:
        # The collector is on, but never runs on its own
        gc.set_threshold(0)
        gc.enable()
    else:
        gc.disable()
    sys.setrecursionlimit(r.choice([1000, 1500, 4000]))
    sys.setswitchinterval(r.choice([1000., 700.]))
    np.setbufsize(r.choice([8192, 16384, 1024]))
    if hasattr(sys, 'set_int_max_str_digits'):
        sys.set_int_max_str_digits(r.choice([4300, 5000, 0]))
    try:
        locale.setlocale(locale.LC_NUMERIC, r.choice(['C', 'C.UTF-8']))
    except locale.Error:
        pass
    if r.random() < .5:
        sys.excepthook = sys.unraisablehook = _callback
    for s in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGPROF,
              signal.SIGTERM, signal.SIGINT, signal.SIGFPE):
        if r.random() < .4:
            signal.signal(s, r.choice([signal.SIG_IGN, _callback]))
    if r.random() < .5:
        os.chdir(r.choice(['/', '/usr']))
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
              'PYTHONWARNINGS', 'TMPDIR'):
        if r.random() < .3:
            os.environ[v] = r.choice(['3', ''])


def _callback(*_args):
    """Set by the user for errors, signals and so on"""


def run_single(objs, by, case):
    """Every action on its own"""
    alloc.arm('plain')
    disturb(case['settings'])
    r = E.Runner(dict(objs), dict(by))
    r.warn = canon.WARN[E._thread.get_ident()] = []
    bad = []
    acts = []
    for i, a in enumerate(case['acts']):
        acts.append(dict(a, id=i))
    outs = []
    import scipy.linalg.interpolative as sli
    for i, a in enumerate(acts):
        p0, t0 = settings.process_settings(), settings.thread_settings()
        sli.seed(4711)
        outs.append(r.action(i, a))
        stream = settings.scipy_stream()
        p1, t1 = settings.process_settings(), settings.thread_settings()
        sli.seed(4711)
        if stream != settings.scipy_stream():
            bad.append((i, 'random stream of SciPy', 'random stream of SciPy '
                        '(interpolative) was used or reseeded'))
        d = settings.compare(p0, p1) or settings.compare(t0, t1)
        if d:
            bad.append((i,) + d)
            break
    return {'outs': [(o[0], o[1] if o[0] == 'exc' else None) for o in outs],
            'bad': bad, 'fired': [f.at for f in r.fired.values()], 'steps': len(acts)}


def run_overlap(objs, by, case):
    """Several threads; compare when all are done"""
    import _thread
    import scipy.linalg.interpolative as sli
    alloc.arm('plain')
    disturb(case['settings'])
    bad = []
    progs = case['threads']
    pol = c01.policy(case['policy'], len(progs))
    f = case.get('fault')
    th = {}
    lst = {}

    class Probe(E.Runner):
        def action(self, i, a):
            me = _thread.get_ident()
            t0 = settings.thread_settings()
            out = super().action(i, a)
            d = settings.compare(t0, settings.thread_settings())
            if d:
                th.setdefault(me, []).append((i,) + d)
            lst[me] = True
            return out
    p0, t0 = settings.process_settings(), settings.thread_settings()
    sli.seed(4711)
    orig, E.Runner = E.Runner, Probe
    try:
        s, runners, res = E.run_threads(
            objs, by, progs, pol, case['mode'],
            interrupt={'thread': 0, 'at': f['at'], 'exc': f['kind']} if f else None)
    finally:
        E.Runner = orig
    stream = settings.scipy_stream()
    p1, t1 = settings.process_settings(), settings.thread_settings()
    sli.seed(4711)
    if stream != settings.scipy_stream():
        bad.append((-1, 'random stream of SciPy', 'random stream of SciPy '
                    '(interpolative) was used or reseeded'))
    d = settings.compare(p0, p1) or settings.compare(t0, t1)
    if d:
        bad.append((-1,) + d)
    for v in th.values():
        bad += v
    return {'bad': bad, 'fired': [s.interrupt_state['fired']] if f else [],
            'steps': s.step, 'switches': s.switches, 'first': s.first.idx,
            'digest': s.digest(), 'res': [x[0] for x in res],
            'outs': [(o[0], None) for x in runners for o in x.out]}


def execute(objs, by, case):
    return (run_overlap if case.get('threads') else run_single)(objs, by, case)


def judge(case, st, out):
    if st == 'hang':
        return 'hang', 'the process never finished'
    if st == 'died':
        fs = [a['fault']['kind'] for a in case.get('acts', ()) if a.get('fault')]
        return None if 'alloc' in fs else ('crash', f'the process died ({out})')
    for i, key, what in out['bad']:
        if case.get('threads'):
            at = f'after overlapping calls{" and a fault at " + str(out["fired"][0]) if out["fired"] else ""}'
        else:
            a = case['acts'][i]
            f = a.get('fault')
            at = 'after ' + (a['op'] if a.get('a', 'op') == 'op' else
                             'make ' + a['rec']['t'] if a['a'] == 'make' else a['a'])
            if f:
                at += f' hit by {f["kind"]}'
        return key, f'{at}: {what}'
    return None


def recs_of(case):
    w = list(case['world'])
    have = {x['name'] for x in w}
    for a in case.get('acts', []) + [a for p in case.get('threads', []) for a in p]:
        if a.get('a') == 'make' and a['rec']['name'] not in have:
            have.add(a['rec']['name'])
            w.append(a['rec'])
    return w


def world(r, i, tier, rec):
    w = W.gen_world(r, r.randint(4, 9))
    by = {x['name']: x for x in w}
    plan = []
    for _ in range(12):
        x = r.random()
        seed = r.randrange(1 << 30)
        if x < .25:
            from .hist import gen_history
            acts = gen_history(r, w, 12, scribble=0, make=.25)
            plan.append(('plain', {'world': w, 'acts': acts, 'settings': seed}))
        elif x < .7:
            tgts = [faulty.gen_target(r, w, by) for _ in range(3)]
            plan.append(('fault', {'world': w, 'acts': tgts, 'settings': seed}))
        else:
            progs = c01.gen_programs(r, w)[:3]
            case = {'world': w, 'threads': progs, 'settings': seed,
                    'mode': r.choice(['call', 'line']),
                    'policy': {'kind': 'random', 'p': r.choice([.3, .05, .01]),
                               'seed': seed}}
            plan.append(('threads', case))

    def zygote():
        alloc.arm('plain')
        seen = set()
        res = []
        # What changes settings only the first time would not be noticed later
        case = {'world': [], 'settings': r.randrange(1 << 30),
                'acts': [{'a': 'make', 'rec': x} for x in w]}
        st, v = proc.run(lambda: execute({}, by, case), 90)
        res.append((case, st, v))
        objs = E.build_world(w)
        for kind, case in plan:
            rr = random.Random(case['settings'])
            if kind == 'fault':
                acts = []
                for tgt in case['acts']:
                    st, cnt = proc.run(lambda: faulty.count_target(objs, by, tgt), 60)
                    if st != 'ok':
                        continue
                    acts += tgt[:-1]
                    for _ in range(4):
                        f = faults.choose(rr, cnt, seen)
                        acts.append(dict(tgt[-1], fault=f))
                case = dict(case, acts=acts)
            elif kind == 'threads' and rr.random() < .4:
                st, locs = proc.run(lambda: E.count_points(
                    objs, by, case['threads'][0], 'call'), 60)
                if st == 'ok' and locs:
                    case = dict(case, mode='call', fault={
                        'kind': rr.choice(['kbd', 'mem']),
                        'at': C.stratified(rr, locs, seen, 1)[0]})
            allby = {x['name']: x for x in recs_of(case)}
            st, v = proc.run(lambda: execute(objs, allby, case), 90)
            res.append((case, st, v))
        return res
    st, results = proc.run(zygote, 700)
    if st != 'ok':
        raise RuntimeError(f'zygote: {st} {results}')
    for case, st, out in results:
        if st == 'err':
            raise RuntimeError(out)
        rec.n['runs'] += 1
        if st == 'ok':
            rec.n['steps'] += out['steps']
            rec.n['actions'] += len(out['outs'])
            for at in out['fired']:
                rec.sets['places hit'].add(at)
            if case.get('threads'):
                rec.n['executions with several threads'] += 1
                if out['fired'] and out['fired'][0]:
                    rec.n['fault:' + case['fault']['kind']
                          + ' (several threads)'] += 1
            else:
                k = 0
                for a in case['acts']:
                    if a.get('fault'):
                        at = out['fired'][k] if k < len(out['fired']) else None
                        k += 1
                        if at is not None:
                            rec.n['fault:' + a['fault']['kind']] += 1
            rec.case(json.dumps(case, sort_keys=True))
        v = judge(case, st, out)
        if v:
            if case.get('threads') and st == 'ok':
                case = dict(case, policy={'kind': 'replay', 'first': out['first'],
                                          'switches': out['switches']})
            rec.viol.append((v[0], v[1], case))
        elif not rec.samples:
            rec.samples.append({'case': case})


def replay(case):
    def child():
        alloc.arm('plain')
        by = {x['name']: x for x in recs_of(case)}
        return execute(E.build_world(case['world']), by, case)
    st, out = proc.run(child, 120)
    if st == 'err':
        raise RuntimeError(out)
    v = judge(case, st, out)
    if v and st == 'ok' and case.get('threads'):
        case = dict(case, policy={'kind': 'replay', 'first': out['first'],
                                  'switches': out['switches']})
        return v[0], v[1], case
    return v


def shrink(case):
    if case.get('threads'):
        c = {'world': case['world'], 'settings': case['settings']}
        # perhaps no overlap is needed
        yield dict(c, acts=[a for p in case['threads'] for a in p])
        for p in case['threads']:
            yield dict(c, acts=list(p))
        if case.get('fault'):
            yield {k: v for k, v in case.items() if k != 'fault'}
        for sc in c01.shrink(dict(case, share=False)):
            sc = dict(sc)
            sc.pop('share', None)
            yield sc
        return
    acts = case['acts']
    n = len(acts)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(case, acts=acts[:i] + acts[i + size:])
        size //= 2
    for i, a in enumerate(acts):
        if a.get('fault'):
            yield dict(case, acts=acts[:i] + [{k: v for k, v in a.items()
                                               if k != 'fault'}] + acts[i + 1:])
    names = [a['on'] for a in acts if a.get('a', 'op') == 'op']
    names += [v for a in acts if a.get('a') == 'make'
              for v in a['rec'].values() if isinstance(v, str)]
    small = W.closure(case['world'], names)
    if len(small) < len(case['world']):
        yield dict(case, world=small)
