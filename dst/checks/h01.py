"""H01: results do not depend on the history of earlier calls."""
import json

from .. import alloc, canon, execute as E, proc, world as W
from . import common as C
from .hist import gen_history, recs_of

PROP = 'H01'
HOT = True
PLAN = {'quick': (700, 75), 'thorough': (30000, 780)}
RULE = ('A case is one history of 12-40 actions of a client on a random world: '
        'calls, constructions and derivations of further objects (siblings '
        'differing in one parameter), repetition of earlier calls, overwriting '
        'of arrays passed in or handed out, reuse of argument buffers, disposal '
        'of objects, jumps and stalls of the simulated clocks. Every result is compared with the same call made alone on '
        'freshly built objects in a fresh process; argument bytes are compared '
        'before and after; arrays handed out are compared again at the end. '
        'Non-trivial: at least 5 calls were compared. Distinct: by history.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec']
STUB = ['NumPy array allocator (fixed alignment)']
ASSUME = ['tolerance for "the same numbers": 1e-11 of the largest entry',
          'attributes (as opposed to calls) may expose internal arrays, which '
          'clients do not overwrite']
TOL = 1e-11
opkey = C.opkey


def execute_case(objs, by, acts, reuse):
    alloc.arm('plain')
    r = E.Runner(dict(objs), dict(by))
    r.pool = {} if reuse else None
    r.reuse = bool(reuse)
    r.run(acts)
    r.recheck()
    return {'outs': r.out, 'bad': r.bad}


def judge(acts, out, refs, by):
    for j, a in enumerate(acts):
        if a.get('a', 'op') != 'op':
            continue
        got = out['outs'][j]
        ref = refs.get(opkey(a))
        if got[0] == 'skip' or ref is None or \
                ref[0] in ('skip', 'err', 'hang', 'died'):
            continue
        d = canon.outcome_differ(ref, got, TOL)
        if d:
            k = W.kind_of(by[a['on']], by)
            return (f'{a["op"]}/{k}',
                    f'action {j}, {a["op"]} on {a["on"]} ({k}): {d}')
    byid = {a.get('id'): a for a in acts}
    for what, i in out['bad']:
        a = byid.get(i, {})
        w = what.split(':')[0]
        return f'{w}/{a.get("op")}', f'action id {i}, {a.get("op")}: {what}'
    return None


def world(r, i, tier, rec):
    w = W.gen_world(r)
    by = {x['name']: x for x in w}
    cases = [(gen_history(r, w, r.choice([12, 20, 30, 40])), r.random() < .35)
             for _ in range(6)]

    def zygote():
        alloc.arm('plain')
        objs = E.build_world(w)
        out = []
        for acts, reuse in cases:
            out.append(proc.run(lambda: execute_case(objs, by, acts, reuse), 120))
        return out
    st, results = proc.run(zygote, 700)
    if st != 'ok':
        raise RuntimeError(f'zygote: {st} {results}')
    wanted = {}
    for acts, _ in cases:
        recs = recs_of(w, acts)
        for a in acts:
            if a.get('a', 'op') == 'op':
                wanted[C.opkey2(a, recs)] = (a, recs)
    refs2 = C.references(wanted)
    for (acts, reuse), (st, out) in zip(cases, results):
        recs = recs_of(w, acts)
        allby = {x['name']: x for x in recs}
        rec.n['runs'] += 1
        sc = {'world': w, 'acts': acts, 'reuse': reuse}
        if st != 'ok':
            if st == 'err':
                raise RuntimeError(out)
            rec.viol.append((st, f'process ended: {st}', sc))
            continue
        refs = {opkey(a): refs2[C.opkey2(a, recs)] for a in acts
                if a.get('a', 'op') == 'op'}
        n = 0
        for j, a in enumerate(acts):
            k = a.get('a', 'op')
            rec.n['action: ' + k] += 1
            o = out['outs'][j]
            if k == 'op' and o[0] != 'skip':
                n += 1
                rec.n['steps'] += 1
                rec.n['calls that raised'] += o[0] == 'exc'
                rec.sets['operations on kinds'].add(
                    (a['op'], W.kind_of(allby[a['on']], allby)))
        if n >= 5:
            rec.case(json.dumps(acts, sort_keys=True))
        v = judge(acts, out, refs, allby)
        if v:
            rec.viol.append((v[0], v[1], sc))
        if not rec.samples:
            rec.samples.append({'world': w, 'history': acts[:12]})


def replay(sc):
    w, acts = sc['world'], sc['acts']
    recs = recs_of(w, acts)
    by = {x['name']: x for x in w}

    def child():
        alloc.arm('plain')
        return execute_case(E.build_world(w), by, acts, sc['reuse'])
    st, out = proc.run(child, 200)
    if st == 'err':
        raise RuntimeError(out)
    if st != 'ok':
        return st, f'process ended: {st}'
    refs = C.references({opkey(a): (a, recs) for a in acts
                         if a.get('a', 'op') == 'op'})
    return judge(acts, out, refs, {x['name']: x for x in recs})


def shrink(sc):
    acts = sc['acts']
    n = len(acts)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(sc, acts=acts[:i] + acts[i + size:])
        size //= 2
    names = [a['on'] for a in acts if a.get('a', 'op') == 'op']
    names += [v for a in acts if a.get('a') == 'make'
              for v in a['rec'].values() if isinstance(v, str)]
    small = W.closure(sc['world'], names)
    if len(small) < len(sc['world']):
        yield dict(sc, world=small)
    if sc['reuse']:
        yield dict(sc, reuse=False)
