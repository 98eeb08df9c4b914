"""C01: concurrent calls do not interfere, and all complete."""
import json
import random

from .. import canon, execute as E, monitor, proc, sched, world as W
from . import common as C

PROP = 'C01'
HOT = True
PLAN = {'quick': (400, 75), 'thorough': (20000, 780)}
RULE = ('A case is one simulated execution: a random world of library objects, '
        '2-4 client threads with 1-4 operations each (calls on shared and '
        'sibling objects, constructions), one schedule from the seeded '
        'scheduler (random switching, priority-based, or one preemption at a '
        'location chosen evenly among those passed). Every result is compared '
        'with the same call made alone in a fresh process. Non-trivial: at '
        'least one thread was suspended inside the library while another ran. '
        'Distinct: by programs and sequence of switches.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec',
        'CPython threads']
STUB = ['thread scheduler (baton; decided by the seed)',
        'locks created by the library (simulated)',
        'NumPy array allocator (fixed alignment)']
ASSUME = ['a thread switch inside one bytecode instruction or inside compiled '
          'NumPy/SciPy code is not simulated',
          'tolerance for "the same value": 1e-11 of the largest entry']
TOL = 1e-11
opkey = C.opkey


def gen_programs(r, w):
    """Client programs with a bias towards operations likely to collide"""
    by = {x['name']: x for x in w}
    nt = r.choice([2, 2, 2, 3, 4])
    mode = r.random()
    progs = [[] for _ in range(nt)]
    if mode < .4:
        # same operation, same object, other arguments
        o = W.even_op(r, w, by)
        x = W.OPS_KIND[(o['op'], W.kind_of(by[o['on']], by))]
        for p in progs:
            for _ in range(r.randint(1, 2)):
                y = r.random()
                p.append({'op': o['op'], 'on': o['on'], 'p': x.gen(r, w) if y < .7
                          else W.near(r, o['p']) if y < .9 else o['p']})
    elif mode < .65:
        # same operation on objects of the same kind
        o = W.gen_op(r, w)
        k = W.kind_of(by[o['on']], by)
        x = W.OPS_KIND[(o['op'], k)]
        cand = [z['name'] for z in w if W.kind_of(z, by) == k]
        for p in progs:
            for _ in range(r.randint(1, 2)):
                p.append({'op': o['op'], 'on': r.choice(cand),
                          'p': x.gen(r, w) if r.random() < .6 else o['p']})
    elif mode < .8:
        # objects of one family
        for p in progs:
            k = r.choice([('ft1', 'ft0'), ('samp', 'matrix'), ('basis',),
                          ('poly1', 'poly0'), ('dlr', 'aug')])
            for _ in range(r.randint(1, 4)):
                p.append(W.gen_op(r, w, kinds=k, by=by))
    else:
        for p in progs:
            for _ in range(r.randint(1, 3)):
                p.append(W.gen_op(r, w, by=by))
    if r.random() < .3:
        # somebody builds objects meanwhile
        g = W.Gen(r)
        g.w, g.by = list(w), dict(by)
        g.n = 1000 + r.randrange(1000)
        n0 = len(g.w)
        r.choice([g.sibling, g.basis, g.sampling, g.derived])()
        extra = g.w[n0:]
        p = r.choice(progs)
        acts = [{'a': 'make', 'rec': x} for x in extra]
        last = extra[-1]
        k = W.kind_of(last, g.by)
        if W.BY_KIND.get(k):
            acts.append(W.gen_op(r, [last], by=g.by))
        at = r.randint(0, len(p))
        p[at:at] = acts
    if r.random() < .1:
        p = r.choice(progs)
        p.insert(r.randint(0, len(p)), {'a': 'amb', 's': r.randrange(1 << 20)})
    return progs


def policy(spec, n):
    r = random.Random(spec.get('seed', 0))
    k = spec['kind']
    if k == 'random':
        return sched.RandomPolicy(r, spec['p'])
    if k == 'pct':
        return sched.PctPolicy(r, n, spec['len'], spec['d'])
    if k == 'preempt':
        return sched.PreemptPolicy(spec['a'], spec['ks'], spec['order'])
    if k == 'replay':
        return sched.ReplayPolicy(spec['first'], spec['switches'])
    raise ValueError(k)


def execute_case(objs, by, progs, spec, mode, share):
    """In a run child: execute and return what is needed to judge"""
    from .. import alloc
    alloc.arm('plain')
    pol = policy(spec, len(progs))
    s, runners, res = E.run_threads(objs, by, progs, pol, mode,
                                    pool={} if share else None)
    for r in runners:
        r.recheck()
    first = None
    if spec['kind'] != 'replay':
        first = s.first.idx
    else:
        first = spec['first']
    return {
        'outs': [r.out for r in runners],
        'bad': [[b for b in r.bad if b[0] != 'argument modified']
                for r in runners],
        'res': [(x[0], None if x[0] == 'ok' else
                 type(x[1]).__name__ + ': ' + canon.message(x[1])
                 if x[1] is not None else '') for x in res],
        'switches': s.switches, 'first': first, 'steps': s.step,
        'locs': [(monitor.CODE_ID.get(c, -1), o) for (c, o), _ in s.pairs],
        'where': [monitor.where(c, o) for (c, o), _ in s.pairs[:50]],
        'digest': s.digest(), 'blocks': s.blocks,
    }


def all_recs(w, progs):
    extra = [a['rec'] for p in progs for a in p if a.get('a') == 'make']
    return w + extra


def judge(progs, out, refs, by):
    """None or (key, what)"""
    for t, (r, msg) in enumerate(out['res']):
        if r == 'deadlock':
            return 'deadlock', 'threads wait for each other forever'
        if r == 'stepcap':
            return 'no progress', 'a call did not complete within 3 million steps'
        if r == 'raise':
            return 'escape', f'thread {t} died of {msg}'
    for t, p in enumerate(progs):
        for i, a in enumerate(p):
            if a.get('a', 'op') != 'op' or i >= len(out['outs'][t]):
                continue
            got = out['outs'][t][i]
            ref = refs.get(opkey(a))
            if got[0] == 'skip' or ref is None or ref[0] in ('skip', 'err', 'hang',
                                                             'died'):
                continue
            d = canon.outcome_differ(ref, got, TOL)
            if d:
                k = W.kind_of(by[a['on']], by)
                return (f'{a["op"]}/{k}',
                        f'thread {t}, {a["op"]} on {a["on"]} ({k}): {d}')
        for what, i in out['bad'][t]:
            a = p[i]
            return (f'{a["op"]}/late', f'thread {t}, {a["op"]}: {what}')
    return None


def world(r, i, tier, rec):
    w = W.gen_world(r)
    by = {x['name']: x for x in w}
    nruns = 24 if tier == 'quick' else 40
    cases = []
    for _ in range(nruns):
        progs = gen_programs(r, w)
        mode = r.choice(['call', 'line', 'line', 'instr'])
        k = r.random()
        if k < .4:
            spec = {'kind': 'random', 'p': r.choice([.5, .1, .02, .004]),
                    'seed': r.randrange(1 << 30)}
        elif k < .6:
            spec = {'kind': 'pct', 'd': r.randint(1, 4), 'len': 0,
                    'seed': r.randrange(1 << 30)}
        else:
            order = list(range(len(progs)))
            r.shuffle(order)
            spec = {'kind': 'preempt', 'a': r.randrange(len(progs)),
                    'order': order, 'n': r.choice([1, 1, 1, 2]),
                    'seed': r.randrange(1 << 30)}
        cases.append((progs, spec, mode, r.random() < .3))

    def zygote():
        objs = E.build_world(w)
        res = []
        seen = set()
        for progs, spec, mode, share in cases:
            allby = {x['name']: x for x in all_recs(w, progs)}
            if spec['kind'] in ('preempt', 'pct'):
                a = spec.get('a', 0)
                st, locs = proc.run(lambda: E.count_points(
                    objs, by, progs[a], mode), 60)
                if st != 'ok' or not locs:
                    locs = [(0, 0)]
                rr = random.Random(spec['seed'])
                if spec['kind'] == 'pct':
                    spec['len'] = len(locs) * len(progs)
                else:
                    spec['ks'] = C.stratified(rr, locs, seen, spec['n'])
            st, v = proc.run(lambda: execute_case(objs, allby, progs, spec, mode,
                                                  share), 90)
            res.append((st, v))
        return res

    st, results = proc.run(zygote, 600)
    if st != 'ok':
        raise RuntimeError(f'zygote: {st} {results}')
    wanted = {}
    for progs, *_ in cases:
        for p in progs:
            for a in p:
                if a.get('a', 'op') == 'op':
                    wanted[C.opkey2(a, all_recs(w, progs))] = (
                        a, all_recs(w, progs))
    refs2 = C.references(wanted)
    for (progs, spec, mode, share), (st, out) in zip(cases, results):
        rec.n['runs'] += 1
        sc = {'world': w, 'threads': progs, 'mode': mode, 'share': share,
              'policy': spec}
        allby = {x['name']: x for x in all_recs(w, progs)}
        if st != 'ok':
            v = confirm_hang(sc, st, out)
            rec.viol.append((v[0], v[1], sc))
            continue
        rec.n['steps'] += out['steps']
        rec.n['switches'] += len(out['switches'])
        rec.n['calls'] += sum(len(o) for o in out['outs'])
        rec.n['lock waits'] += out['blocks']
        rec.n['schedule: ' + spec['kind']] += 1
        rec.n['granularity: ' + mode] += 1
        for x in out['locs']:
            rec.sets['suspension points'].add(x)
        if out['locs']:
            rec.case((json.dumps(progs, sort_keys=True), out['digest']))
        recs = all_recs(w, progs)
        refs = {opkey(a): refs2[C.opkey2(a, recs)] for p in progs for a in p
                if a.get('a', 'op') == 'op'}
        v = judge(progs, out, refs, allby)
        if v:
            sc['policy'] = {'kind': 'replay', 'first': out['first'],
                            'switches': out['switches']}
            sc['where'] = out['where']
            rec.viol.append((v[0], v[1], sc))
        if not rec.samples:
            rec.samples.append({'world': w, 'threads': progs, 'policy': spec,
                                'granularity': mode,
                                'switches': out['switches'][:20]})


def confirm_hang(sc, st, out):
    if st == 'err':
        raise RuntimeError(out)
    return ('hang' if st == 'hang' else 'crash',
            f'the process {"never finished" if st == "hang" else "died"}')


def replay(sc):
    w, progs = sc['world'], sc['threads']
    recs = all_recs(w, progs)
    allby = {x['name']: x for x in recs}

    def child():
        objs = E.build_world(w)
        return execute_case(objs, allby, progs, sc['policy'], sc['mode'],
                            sc['share'])
    st, out = proc.run(child, 120)
    if st != 'ok':
        return confirm_hang(sc, st, out)
    wanted = {opkey(a): (a, recs) for p in progs for a in p
              if a.get('a', 'op') == 'op'}
    refs = C.references(wanted)
    v = judge(progs, out, refs, allby)
    if not v:
        return None
    sc2 = dict(sc, policy={'kind': 'replay', 'first': out['first'],
                           'switches': out['switches']}, where=out['where'])
    return v[0], v[1], sc2


def shrink(sc):
    progs = sc['threads']
    pol = sc['policy']

    def variants(new):
        """New programs need a new schedule: try the old one, then search"""
        if sum(bool(p) for p in new) >= 1:
            yield dict(sc, threads=new)
            for seed in range(6):
                for p in (.5, .1, .02):
                    yield dict(sc, threads=new, policy={
                        'kind': 'random', 'p': p, 'seed': seed})
    # fewer threads, then fewer actions
    if len(progs) > 2:
        for t in range(len(progs)):
            yield from variants(progs[:t] + progs[t + 1:])
    for t, p in enumerate(progs):
        if len(p) > 1:
            for i in range(len(p)):
                yield from variants(progs[:t] + [p[:i] + p[i + 1:]] + progs[t + 1:])
    # fewer switches
    if pol['kind'] == 'replay':
        sw = pol['switches']
        n = len(sw)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(sc, policy=dict(pol, switches=sw[:i] + sw[i + size:]))
            size //= 2
    # smaller world
    names = [a['on'] for p in progs for a in p if a.get('a', 'op') == 'op']
    names += [v for p in progs for a in p if a.get('a') == 'make'
              for v in a['rec'].values() if isinstance(v, str)]
    small = W.closure(sc['world'], names)
    if len(small) < len(sc['world']):
        yield dict(sc, world=small)
    if sc['share']:
        yield dict(sc, share=False)
