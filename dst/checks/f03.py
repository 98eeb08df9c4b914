"""F03: results do not depend on the contents of fresh memory."""
import json

from .. import alloc, canon, execute as E, proc, world as W
from . import common as C
from .hist import gen_history, recs_of

PROP = 'F03'
PLAN = {'quick': (900, 75), 'thorough': (40000, 780)}
PATTERNS = ['nan', 'huge', 'random', 'tiny', 'inf', 'plain', 'random2']
RULE = ('A case is one execution of a client program: construction of a random '
        'world of objects and 30 actions (calls, constructions, derivations), '
        'everything with one content of fresh array memory decided by the '
        'simulated allocator: zeros (the reference), NaN, infinities, huge, '
        'tiny, plausible and random numbers. All results, and the data of all '
        'objects at the end, must agree bit by bit with the reference. '
        'Non-trivial: at least 100 blocks of memory were filled. Distinct: by '
        'program and pattern.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec']
STUB = ['NumPy array allocator (contents of fresh and freed blocks decided by '
        'the simulator)']
ASSUME = ['memory obtained by compiled code through other means than NumPy '
          'array allocation is not controlled']


def gen_program(r, w):
    acts = gen_history(r, w, 30, scribble=0, make=.2, drop=.02)
    return acts


def execute_case(w, acts, pattern):
    alloc.arm('random' if pattern == 'random2' else pattern,
              seed=12345 if pattern == 'random2' else 777)
    by = {x['name']: x for x in w}
    objs = E.build_world(w)
    r = E.Runner(objs, by)
    r.run(acts)
    probes = []
    for n, o in sorted(r.objs.items()):
        if isinstance(o, E.Failed):
            probes.append((n, None, ('failed',) + o.text))
        else:
            k = W.kind_of(r.by[n], r.by)
            probes.append((n, k, canon.outcome(lambda: W.probe_any(o, k))))
    n = alloc.cfg.n_alloc
    over = alloc.cfg.n_overrun
    return {'outs': r.out, 'probes': probes, 'allocs': int(n), 'over': int(over)}


def compact(out):
    """What is sent back: digests, to be looked at again on replay"""
    return {'d': [digest(o) for o in out['outs']],
            'p': [(n, k, digest(o)) for n, k, o in out['probes']],
            'allocs': out['allocs'], 'over': out['over']}


def digest(o):
    return ('ret', canon.digest(o[1])) if o[0] == 'ret' else tuple(o)


def judge(w, acts, ref, got, full=False):
    recs = recs_of(w, acts)
    by = {x['name']: x for x in recs}
    if got['over']:
        return 'overrun', 'memory behind an array was overwritten'
    diff = (lambda a, b: canon.outcome_differ(a, b, None)) if full else \
        (lambda a, b: None if a == b else 'different')
    key = ('outs', 'probes') if full else ('d', 'p')
    for j, (a, x, y) in enumerate(zip(acts, ref[key[0]], got[key[0]])):
        d = diff(x, y) if (not full or x[0] in ('ret', 'exc')) and x[0] == y[0] \
            else (None if x == y else f'{canon.describe(y)} instead of '
                  f'{canon.describe(x)}')
        if d:
            if a.get('a', 'op') == 'op':
                k = W.kind_of(by[a['on']], by)
                return (f'{a["op"]}/{k}', f'action {j}, {a["op"]} on {a["on"]} '
                        f'({k}) depends on fresh memory: {d}')
            return f'{a["a"]}', f'action {j}, {a}: {d}'
    for (n, k, x), (_, _, y) in zip(ref[key[1]], got[key[1]]):
        d = diff(x, y) if x[0] == y[0] and x[0] in ('ret', 'exc') else \
            (None if x == y else 'different outcome')
        if d:
            return (f'data/{k}', f'data of {n} ({k}, {by[n]}) depend on fresh '
                    f'memory: {d}')
    return None


def heavy(r, w):
    """Add an expansion in extended precision"""
    g = W.Gen(r)
    g.w, g.by, g.n = w, {x['name']: x for x in w}, 100
    k = g.kernel(r.choice('LLB'), r.choice([2.5, 10.0]))
    s = g.add('sve', k=k, eps=r.choice([None, 1e-10, 1e-12]),
              kw=r.choice([None, None, {'sve_strat': 'sampling'}]))
    stat = 'B' if g.by[k]['cls'] == 'B' else r.choice('FB')
    g.add('basis', stat=stat, beta=1.0, wmax=g.by[k]['lam'],
          eps=r.choice([None, 1e-9]), sve=s, k=k)


def world(r, i, tier, rec):
    w = W.gen_world(r)
    if r.random() < .2:
        heavy(r, w)
    acts = gen_program(r, w)
    pats = r.sample(PATTERNS, 5)
    res = {}
    for p in ['zero'] + pats:
        st, out = proc.run(lambda: compact(execute_case(w, acts, p)), 120)
        if st == 'err':
            raise RuntimeError(out)
        res[p] = (st, out)
    st, ref = res['zero']
    if st != 'ok':
        rec.viol.append((st, 'process ended with zeroed memory',
                         {'world': w, 'acts': acts, 'pattern': 'zero'}))
        return
    by = {x['name']: x for x in recs_of(w, acts)}
    for a in acts:
        if a.get('a', 'op') == 'op':
            rec.sets['operations on kinds'].add(
                (a['op'], W.kind_of(by[a['on']], by)))
    for p in pats:
        st, out = res[p]
        rec.n['runs'] += 1
        sc = {'world': w, 'acts': acts, 'pattern': p}
        if st != 'ok':
            rec.viol.append((st, f'process ended with memory pattern {p}', sc))
            continue
        rec.n['fault:fresh memory ' + p] += out['allocs']
        rec.n['steps'] += len(acts)
        if out['allocs'] >= 100:
            rec.case((json.dumps(acts, sort_keys=True), p))
        v = judge(w, acts, ref, out)
        if v:
            rec.viol.append((v[0], v[1], sc))
        elif not rec.samples:
            rec.samples.append({'world': w, 'actions': acts[:8], 'pattern': p,
                                'blocks filled': out['allocs']})


def replay(sc):
    w, acts = sc['world'], sc['acts']
    res = []
    for p in ('zero', sc['pattern']):
        st, out = proc.run(lambda: execute_case(w, acts, p), 120)
        if st == 'err':
            raise RuntimeError(out)
        if st != 'ok':
            return st, f'process ended with memory pattern {p}'
        res.append(out)
    return judge(w, acts, res[0], res[1], full=True)


def shrink(sc):
    acts = sc['acts']
    n = len(acts)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(sc, acts=acts[:i] + acts[i + size:])
        size //= 2
    names = [a['on'] for a in acts if a.get('a', 'op') == 'op']
    names += [v for a in acts if a.get('a') == 'make'
              for v in a['rec'].values() if isinstance(v, str)]
    small = W.closure(sc['world'], names)
    if len(small) < len(sc['world']) and (small or acts):
        yield dict(sc, world=small)
    # only data of objects: any subset closed under dependence
    if not acts:
        for x in sc['world']:
            small = W.closure(sc['world'], [x['name']])
            if len(small) < len(sc['world']):
                yield dict(sc, world=small)
