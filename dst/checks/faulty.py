"""Cases in which one call is cut short, shared by F01, F02 and F04.

A case is JSON::

  {"world": [...], "pre": [...], "target": action with "fault", "post": [...],
   "with": [[...], ...] (programs of other threads), "policy", "mode"}
"""
import json
import random

from .. import alloc, canon, execute as E, faults, proc, sched, world as W
from . import c01, common as C

RANDOM = 'random'


def gen_target(r, w, by):
    """An action to be hit: a call or a construction"""
    if r.random() < .3:
        g = W.Gen(r)
        g.w, g.by, g.n = list(w), dict(by), 3000 + r.randrange(1000)
        n0 = len(g.w)
        r.choice([g.sibling, g.sibling, g.basis, g.sampling, g.derived,
                  g.derived, g.sve])()
        new = g.w[n0:]
        return [{'a': 'make', 'rec': x} for x in new]
    if r.random() < .15:
        # calls with callbacks or warnings
        f = [(x['name'], k) for x in w for k in [W.kind_of(x, by)]
             if k in ('poly0', 'poly1', 'basis', 'aug')]
        if f:
            on, k = r.choice(f)
            name = 'overlap' if k in ('poly0', 'poly1') else \
                r.choice(['deftau', 'defmats', 'mksamp'])
            return [{'op': name, 'on': on, 'p': W.OPS_KIND[(name, k)].gen(r, w)}]
    return [W.gen_op(r, w, by=by)]


def relatives(w, name):
    """Objects sharing anything with ``name``"""
    mine = {x['name'] for x in W.closure(w, [name])}
    out = set()
    for x in w:
        if mine & {y['name'] for y in W.closure(w, [x['name']])}:
            out.add(x['name'])
    return out


def gen_post(r, w, by, target, n):
    """Calls looking for traces"""
    post = [dict(t) for t in target]
    t = target[-1]
    if t.get('a') == 'make':
        rec = t['rec']
        recs = w + [x['rec'] for x in target]
        by = {x['name']: x for x in recs}
        k = W.kind_of(rec, by)
        if W.BY_KIND.get(k):
            for _ in range(2):
                post.append(W.gen_op(r, recs, names={rec['name']}, by=by))
        rel = relatives(recs, rec['name'])
        same = [x['name'] for x in recs if W.BY_KIND.get(W.kind_of(x, by))
                and W.kind_of(x, by) == k]
    else:
        recs = w
        k = W.kind_of(by[t['on']], by)
        rel = relatives(w, t['on'])
        same = [x['name'] for x in w if W.kind_of(x, by) == k]
    have = [x['name'] for x in recs if W.BY_KIND.get(W.kind_of(x, by))]
    rel = [x for x in have if x in rel]
    for _ in range(n):
        y = r.random()
        if y < .35 and t.get('a') != 'make':
            on = r.choice(same)
            z = r.random()
            post.append({'op': t['op'], 'on': on, 'p': W.OPS_KIND[
                (t['op'], k)].gen(r, w) if z < .5 else
                W.near(r, t['p']) if z < .7 else t['p']})
        elif y < .75 and rel:
            post.append(W.gen_op(r, recs, names={r.choice(rel)}, by=by))
        elif same and y < .85:
            post.append(W.gen_op(r, recs, names={r.choice(same)}, by=by))
        else:
            post.append(W.gen_op(r, recs, names={r.choice(have)}, by=by))
    return post


def recs_of(case):
    w = list(case['world'])
    have = {x['name'] for x in w}
    for a in case['pre'] + case['target'] + case['post'] + \
            [a for p in case.get('with', []) for a in p]:
        if a.get('a') == 'make' and a['rec']['name'] not in have:
            have.add(a['rec']['name'])
            w.append(a['rec'])
    return w


def run_case(objs, by, case, probe=None):
    """In a child: execute, return what is needed to judge.

    ``probe(tag)`` is called around every action, in the thread doing it.
    """
    alloc.arm('plain')
    out = {'dead': None, 'steps': 0, 'fired': None, 'bad': [], 'probe': None}
    r = E.Runner(dict(objs), dict(by))
    tgt = case['target']
    f = case.get('fault')
    try:
        if probe:
            probe('start')
        if case['pre']:
            r.run([dict(a, id=i) for i, a in enumerate(case['pre'])])
        out['pre'], r.out = r.out, []
        if case.get('with'):
            f = case['fault']
            pol = c01.policy(case['policy'], 1 + len(case['with']))
            progs = [list(tgt)] + [list(p) for p in case['with']]
            s, runners, res = E.run_threads(
                r.objs, r.by, progs, pol, 'call',
                interrupt={'thread': 0, 'at': f['at'], 'exc': f['kind']}
                if f else None)
            out['threads'] = [x.out for x in runners]
            out['tgt'] = runners[0].out
            out['twarn'] = runners[0].warn if hasattr(runners[0], 'warn') else []
            out['steps'] = s.step
            out['switches'] = s.switches
            out['first'] = s.first.idx
            out['digest'] = s.digest()
            out['fired'] = s.interrupt_state['fired'] if f else None
            out['res'] = [(x[0], '' if x[0] == 'ok' else repr(x[1])[:200])
                          for x in res]
            # what thread 0 managed to build is known to everybody
            for a in tgt:
                if a.get('a') == 'make':
                    n = a['rec']['name']
                    if n in runners[0].objs:
                        r.objs[n] = runners[0].objs[n]
                        r.by[n] = a['rec']
            r.warn = canon.WARN.setdefault(E._thread.get_ident(), [])
        else:
            acts = [dict(a, id=100 + i) for i, a in enumerate(tgt)]
            if f:
                acts[case.get('hit', -1)]['fault'] = f
            r.run(acts)
            out['tgt'], r.out = r.out, []
            out['twarn'] = r.warn
            fr = r.fired.get(acts[case.get('hit', -1)]['id'])
            out['fired'] = fr.at if fr is not None else None
        if probe:
            probe('target')
        r.run([dict(a, id=200 + i) for i, a in enumerate(case['post'])])
        out['post'] = r.out
        r.recheck()
        out['bad'] = [b for b in r.bad if b[1] >= 200 or b[1] < 100]
        if probe:
            probe('end')
    except sched.Deadlock:
        out['dead'] = 'a lock is never released'
    out['by'] = None
    return out


def plan_world(r, w, n_targets, n_faults, kinds, threads=.25, pre=.3, post=(3, 6)):
    """Targets with their cases, faults still to be chosen"""
    by = {x['name']: x for x in w}
    plan = []
    for _ in range(n_targets):
        tgt = gen_target(r, w, by)
        cases = []
        # few different calls, so that few references are needed
        pool = gen_post(r, w, by, tgt, 8)
        head, pool = pool[:len(tgt)], pool[len(tgt):]
        pres = [W.gen_op(r, w, by=by) for _ in range(2)] + \
            [a for a in pool if a.get('a', 'op') == 'op' and a['on'] in by]
        for _ in range(n_faults):
            case = {'world': w, 'pre': [], 'target': tgt,
                    'post': head + [dict(x) for x in r.sample(
                        pool, min(len(pool), r.randint(*post)))]}
            if r.random() < pre:
                for _ in range(r.randint(1, 3)):
                    case['pre'].append(dict(r.choice(pres)))
            if r.random() < threads:
                nt = r.choice([1, 1, 2])
                case['with'] = []
                for _ in range(nt):
                    p = []
                    for _ in range(r.randint(1, 3)):
                        p.append(dict(r.choice(
                            [a for a in case['post'] if a.get('a', 'op') == 'op'
                             and a['on'] in by] or
                            [W.gen_op(r, w, by=by)])))
                    case['with'].append(p)
                case['policy'] = {'kind': 'random', 'p': r.choice([.5, .1, .02]),
                                  'seed': r.randrange(1 << 30)}
            case['seed'] = r.randrange(1 << 30)
            cases.append(case)
        plan.append((tgt, cases))
    return plan


def count_target(objs, by, tgt):
    """Opportunities in the last action of the target"""
    rr = E.Runner(dict(objs), dict(by))
    rr.run(tgt[:-1])
    return E.count_faults(rr.objs, rr.by, tgt[-1])


def run_world(w, plan, kinds, execute=run_case, limit=700):
    """[(case, status, output)] of all cases, faults chosen"""
    by = {x['name']: x for x in w}

    def zygote():
        alloc.arm('plain')
        objs = E.build_world(w)
        res = []
        seen = set()
        for tgt, cases in plan:
            st, cnt = proc.run(lambda: count_target(objs, by, tgt), 60)
            if st != 'ok':
                if st == 'err':
                    raise RuntimeError(cnt)
                continue
            for case in cases:
                rr = random.Random(case['seed'])
                k = ('kbd', 'mem') if case.get('with') else kinds
                f = faults.choose(rr, cnt, seen, k)
                if f is None:
                    continue
                case['fault'] = f
                allby = {x['name']: x for x in recs_of(case)}
                st, v = proc.run(lambda: execute(objs, allby, case), 60)
                res.append((case, st, v))
        return res
    st, res = proc.run(zygote, limit)
    if st != 'ok':
        raise RuntimeError(f'zygote: {st} {res}')
    return res


def wanted_of(case, table):
    recs = recs_of(case)
    for a in case['pre'] + case['target'] + case['post'] + \
            [a for p in case.get('with', []) for a in p]:
        if a.get('a', 'op') == 'op':
            table[C.opkey2(a, recs)] = (a, recs)


def ref_of(a, recs, refs):
    ref = refs.get(C.opkey2(a, recs))
    return None if ref is None or ref[0] in ('skip', 'err', 'hang', 'died') \
        else ref


def judge_rest(case, out, refs, tol):
    """Everything but the call that was hit"""
    recs = recs_of(case)
    by = {x['name']: x for x in recs}
    f = case.get('fault') or {'kind': 'none'}
    at = f'after {f["kind"]} at {out["fired"]}'
    if out['dead']:
        return 'blocked', f'{at}: {out["dead"]}'
    for t, (x, msg) in enumerate(out.get('res', ())):
        if x == 'deadlock':
            return 'blocked', f'{at}: threads wait for each other forever'
        if x != 'ok':
            return 'escape', f'{at}: thread {t}: {x} {msg}'
    groups = [('earlier', case['pre'], out['pre']),
              ('later', case['post'], out['post'])]
    for t, p in enumerate(case.get('with', ())):
        groups.append((f'concurrent (thread {t + 1})', p, out['threads'][t + 1]))
    for name, acts, outs in groups:
        for j, a in enumerate(acts):
            got = outs[j]
            if a.get('a', 'op') == 'make':
                if got[0] == 'exc' and name == 'later' and \
                        not makes_fail(a, recs, refs):
                    return (f'make/{a["rec"]["t"]}',
                            f'{at}: {name} construction {a["rec"]}: '
                            f'{canon.describe(got)}')
                continue
            if a.get('a', 'op') != 'op' or got[0] == 'skip':
                continue
            ref = ref_of(a, recs, refs)
            if ref is None:
                continue
            d = canon.outcome_differ(ref, got, tol)
            if d:
                k = W.kind_of(by[a['on']], by)
                return (f'{a["op"]}/{k}', f'{at}: {name} call {j}, {a["op"]} on '
                        f'{a["on"]} ({k}): {d}')
    for what, i in out['bad']:
        return 'late', f'{at}: {what} (action {i})'
    return None


def makes_fail(a, recs, refs):
    """Does this construction fail even when undisturbed?"""
    key = json.dumps(W.closure(recs, [a['rec']['name']]), sort_keys=True)
    if key not in refs:
        def child():
            objs = E.build_world(W.closure(recs, [a['rec']['name']]))
            return isinstance(objs[a['rec']['name']], E.Failed)
        st, v = proc.run(child, 60)
        refs[key] = v if st == 'ok' else True
    return refs[key]


def replay_case(case, execute=run_case, judge=None):
    w = case['world']

    def child():
        alloc.arm('plain')
        by = {x['name']: x for x in recs_of(case)}
        objs = E.build_world(w)
        return execute(objs, by, case)
    st, out = proc.run(child, 120)
    if st == 'err':
        raise RuntimeError(out)
    table = {}
    wanted_of(case, table)
    refs = C.references(table)
    v = judge(case, st, out, refs)
    if v and st == 'ok' and case.get('with') and out.get('switches') is not None:
        case = dict(case, policy={'kind': 'replay', 'first': out['first'],
                                  'switches': out['switches']})
        return v[0], v[1], case
    return v


def shrink_case(case):
    if case['pre']:
        yield dict(case, pre=[])
        for i in range(len(case['pre'])):
            yield dict(case, pre=case['pre'][:i] + case['pre'][i + 1:])
    if case.get('with'):
        c = dict(case)
        for k in ('with', 'policy'):
            c.pop(k)
        yield c
        for i, p in enumerate(case['with']):
            if len(case['with']) > 1:
                yield dict(case, **{'with': case['with'][:i] + case['with'][i + 1:]})
            if len(p) > 1:
                for j in range(len(p)):
                    yield dict(case, **{'with': case['with'][:i]
                                        + [p[:j] + p[j + 1:]]
                                        + case['with'][i + 1:]})
        pol = case['policy']
        if pol['kind'] == 'replay':
            sw = pol['switches']
            size = len(sw) // 2
            while size >= 1:
                for i in range(0, len(sw), size):
                    yield dict(case, policy=dict(pol, switches=sw[:i] + sw[i + size:]))
                size //= 2
    n = len(case['post'])
    size = max(1, n // 2) if n else 0
    while size >= 1:
        for i in range(0, n, size):
            yield dict(case, post=case['post'][:i] + case['post'][i + size:])
        size //= 2
    f = case.get('fault')
    if f and f.get('count', 1) > 1:
        yield dict(case, fault=dict(f, count=1))
    if f and f['at'] > 1:
        for at in {1, f['at'] // 2, f['at'] - 1}:
            if at >= 1:
                yield dict(case, fault=dict(f, at=at))
    names = []
    for a in case['pre'] + case['target'] + case['post'] + \
            [a for p in case.get('with', []) for a in p]:
        if a.get('a', 'op') == 'op':
            names.append(a['on'])
        elif a.get('a') == 'make':
            names += [v for v in a['rec'].values() if isinstance(v, str)]
    small = W.closure(case['world'], names)
    if len(small) < len(case['world']):
        yield dict(case, world=small)
