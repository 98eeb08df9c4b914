"""Shared pieces of the checks."""
import json

from .. import execute as E, hot, proc, world as W


def stratified(r, locs, seen, n):
    """Steps (1-based) at which to suspend: first choose a place in the code,
    preferring places not used before, then one of its visits"""
    near = hot.spots(locs) if hot.LINES else ()
    if near and r.random() < .6:
        # places where state kept between calls is touched
        out = []
        for _ in range(n):
            i = r.choice(near)
            k = [j for j in near if locs[j] == locs[i]]
            fresh = [j for j in near if locs[j] not in seen]
            if fresh and r.random() < .7:
                k = [r.choice(fresh)]
            j = r.choice(k)
            seen.add(locs[j])
            out.append(j + 1)
        return sorted(out)
    where = {}
    for i, x in enumerate(locs):
        where.setdefault(x, []).append(i + 1)
    keys = sorted(where)
    fresh = [k for k in keys if k not in seen]
    out = []
    for _ in range(n):
        k = r.choice(fresh if fresh and r.random() < .7 else keys)
        seen.add(k)
        out.append(r.choice(where[k]))
    return sorted(out)


def opkey(a):
    return json.dumps([a['op'], a['on'], a['p']], sort_keys=True)


def opkey2(a, recs):
    """Key that also tells apart objects of the same name"""
    clo = W.closure(recs, [a['on']])
    return json.dumps([a['op'], a['on'], a['p'], clo], sort_keys=True)


def references(wanted):
    """key -> (op, recipes); each executed alone in a fresh process"""
    groups = {}
    for key, (a, recs) in wanted.items():
        clo = W.closure(recs, [a['on']])
        g = json.dumps(clo, sort_keys=True)
        groups.setdefault(g, (clo, []))[1].append((key, a))
    out = {}
    for clo, lst in groups.values():
        def child(clo=clo, lst=lst):
            from .. import alloc
            alloc.arm('plain')
            by = {x['name']: x for x in clo}
            objs = E.build_world(clo)
            res = {}
            for key, a in lst:
                def grand(a=a):
                    r = E.Runner(objs, dict(by))
                    r.run([a])
                    return r.out[0]
                st, v = proc.run(grand, 60)
                res[key] = v if st == 'ok' else (st, v)
            return res
        st, v = proc.run(child, 600)
        if st != 'ok':
            raise RuntimeError(f'reference: {st} {v}')
        out.update(v)
    return out
