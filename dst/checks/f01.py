"""F01: a failed or interrupted call leaves no trace."""
import json

from .. import canon, execute as E, faults, world as W
from . import common as C, faulty

PROP = 'F01'
HOT = True
PLAN = {'quick': (700, 75), 'thorough': (40000, 780)}
RULE = ('A case is one execution on a random world: up to 3 earlier calls, one '
        'call or construction hit by one injected fault (KeyboardInterrupt or '
        'MemoryError at a place where CPython can raise it, chosen evenly among '
        'those passed; failing NumPy allocations; failing linear algebra; '
        'exception from the user callback; warning turned into error), in a '
        'quarter of the cases while 1-2 other threads run under the seeded '
        'scheduler, then the same call again and 3-6 further calls and '
        'constructions on the same and related objects. All but the call hit '
        'are compared with the same call made alone in a fresh process. '
        'Non-trivial: the fault fired. Distinct: by case.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec']
STUB = ['NumPy array allocator (fails on demand)',
        'numerical back-ends when made to raise (otherwise real)',
        'signal delivery (raised at CPython\'s own check points)',
        'thread scheduler in cases with several threads']
ASSUME = ['interrupts inside compiled code take effect on return from it',
          'a crash of NumPy itself on a failed allocation is not the '
          'library\'s doing',
          'tolerance for "the same result": 1e-11 of the largest entry']
TOL = 1e-11


def judge(case, st, out, refs):
    f = case['fault']
    if st == 'hang':
        return 'hang', f'{f}: the process never finished'
    if st == 'died':
        if f['kind'] == 'alloc':
            # the library has no compiled code: NumPy itself did not survive
            return None
        return 'crash', f'{f}: the process died ({out})'
    v = faulty.judge_rest(case, out, refs, TOL)
    if v:
        return v
    if out['fired'] is None:
        return None
    got = out['tgt'][-1]
    recs = faulty.recs_of(case)
    a = case['target'][-1]
    name = a['op'] if a.get('a', 'op') == 'op' else 'make ' + a['rec']['t']
    at = f'{f["kind"]} at {out["fired"]} during {name}'
    if case.get('with') and len(out['tgt']) > 1:
        return None if any(x[0] == 'exc' for x in out['tgt']) else \
            (f'swallowed/{f["kind"]}', f'{at}: error did not reach the caller')
    if got[0] == 'skip':
        return None
    if got[0] == 'exc':
        want = {'kbd': 'Interrupt', 'cb': 'CallbackError'}.get(f['kind'])
        if want and got[1] != want:
            return (f'replaced/{f["kind"]}',
                    f'{at}: caller got {canon.describe(got)}')
        return None
    if f['kind'] == 'alloc':
        # NumPy itself may get by with less memory
        ref = faulty.ref_of(a, recs, refs) if a.get('a', 'op') == 'op' else None
        if ref is None or canon.outcome_differ(ref, got, TOL) is None:
            return None
    return (f'swallowed/{f["kind"]}', f'{at}: error did not reach the caller')


def world(r, i, tier, rec):
    w = W.gen_world(r, r.randint(4, 9))
    plan = faulty.plan_world(r, w, 6, 5, faults.KINDS)
    results = faulty.run_world(w, plan, faults.KINDS)
    table = {}
    for case, st, out in results:
        faulty.wanted_of(case, table)
    refs = C.references(table)
    for case, st, out in results:
        if st == 'err':
            raise RuntimeError(out)
        rec.n['runs'] += 1
        f = case['fault']
        if st == 'ok':
            rec.n['steps'] += out['steps']
            rec.n['calls compared'] += len(out.get('post', ())) + len(out['pre'])
            if out['fired'] is not None:
                rec.n['fault:' + f['kind'] + (' (several threads)'
                                              if case.get('with') else '')] += 1
                rec.sets['places hit: ' + f['kind']].add(out['fired'])
                t = case['target'][-1]
                by = {x['name']: x for x in faulty.recs_of(case)}
                rec.sets['operations hit'].add(
                    (t['op'], W.kind_of(by[t['on']], by))
                    if t.get('a', 'op') == 'op' else ('make', t['rec']['t']))
                rec.case(json.dumps({k: v for k, v in case.items()
                                     if k != 'seed'}, sort_keys=True))
            else:
                rec.n['fault did not fire'] += 1
        elif f['kind'] == 'alloc':
            rec.n['NumPy crashed on failed allocation (not judged)'] += 1
        v = judge(case, st, out, refs)
        if v:
            rec.viol.append((v[0], v[1], case))
        elif not rec.samples and st == 'ok' and out['fired']:
            rec.samples.append({'case': case, 'fired': out['fired']})


def replay(case):
    return faulty.replay_case(case, judge=judge)


def shrink(case):
    return faulty.shrink_case(case)
