"""P01: objects survive restart, copying and forking."""
import json
import os
import pickle
import random
import subprocess
import sys

from .. import alloc, boot, canon, execute as E, monitor, proc, world as W
from . import c01, common as C
from .f03 import heavy

PROP = 'P01'
HOT = True
PLAN = {'quick': (500, 70), 'thorough': (20000, 760)}
RULE = ('A case is one simulated execution: 1-3 client threads use a random world '
        'of objects under a seeded schedule; at seeded moments, also in the middle '
        'of calls of other threads, one of them copies objects (copy, deepcopy, '
        'pickle protocols 0-5), ships them to another process (a process that '
        'never built anything, or a fresh interpreter), or forks. Copies, '
        'originals, objects derived from copies, and forked children are used '
        'further, one side is destroyed (every array overwritten, every attribute '
        'removed) and the other used again. Every result is compared with the '
        'same call on an object built from scratch in a fresh process. '
        'Non-trivial: at least one call on a copy was compared. Distinct: by '
        'programs and sequence of switches.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec',
        'pickle, copy, fork, new interpreter processes', 'CPython threads']
STUB = ['thread scheduler (baton; decided by the seed)',
        'locks created by the library (simulated)',
        'NumPy array allocator (fixed alignment)']
ASSUME = ['compiled pickling code is not interrupted by other threads',
          'tolerance for "the same results": 1e-11 of the largest entry']
TOL = 1e-11
HOW = ['copy', 'deepcopy', 'deepcopy list', 'pypickle', '0', '1', '2', '3', '4', '5']


# ------------------------------------------------------------------ generation

def derive(r, rec, by, name):
    """Recipe of something made from the object of ``rec``"""
    k = W.kind_of(rec, by)
    n = rec['name']
    stat = W.stat_of(rec, by)
    if k == 'basis':
        c = [{'t': 'tau', 'o': n}, {'t': 'mats', 'o': n, 'stat': stat},
             {'t': 'mats', 'o': n, 'stat': stat, 'pos': 1},
             {'t': 'slice', 'o': n, 'n': 3, 'stat': stat},
             {'t': 'rescale', 'o': n, 'beta': 20.0},
             {'t': 'attr', 'o': n, 'a': r.choice(['u', 'v', 'uhat'])},
             {'t': 'aug', 'o': n, 'augs': ['MatsubaraConst']}]
    elif k == 'poly1':
        c = [{'t': 'item', 'o': n, 'i': 1}, {'t': 'deriv', 'o': n, 'n': 1}]
    elif k == 'poly0':
        c = [{'t': 'deriv', 'o': n, 'n': 1}]
    elif k == 'ft1':
        c = [{'t': 'item', 'o': n, 'i': 2}]
    elif k == 'samp' or k == 'dlr':
        c = [{'t': 'attr', 'o': n, 'a': 'matrix'}]
    elif k == 'bset':
        c = [{'t': 'attr', 'o': n, 'a': r.choice(
            ['smpl_tau_f', 'smpl_tau_b', 'smpl_wn_f', 'smpl_wn_b', 'basis_f',
             'basis_b'])}]
    elif k == 'kernel':
        c = [{'t': 'ksym', 'k': n, 'sign': r.choice([1, -1])}]
    elif k == 'aug':
        c = [{'t': 'attr', 'o': n, 'a': r.choice(['u', 'uhat'])}]
    else:
        return None
    return dict(r.choice(c), name=name)


def gen_program(r, w, tid, threads):
    """One client who saves, copies, forks"""
    by = {x['name']: x for x in w}
    acts = []
    k = [0]

    def push(a):
        a['id'] = 1000 * tid + k[0]
        k[0] += 1
        acts.append(a)

    def name():
        return f'c{tid}_{len(by)}'
    live = [x for x in w]
    for _ in range(r.randint(0, 2)):
        push(W.gen_op(r, live, by=by))
    for _ in range(r.randint(1, 4)):
        kind = r.choice(['clone'] * 5 + ['ship'] * 3 + ['fork'] * 2)
        src = r.choice(live)
        if kind == 'fork':
            pool = [src] if r.random() < .5 and W.BY_KIND.get(W.kind_of(src, by)) \
                else live
            inner = [W.gen_op(r, pool, by=by) for _ in range(r.randint(1, 4))]
            if r.random() < .4:
                m = name()
                rec = dict(src, name=m)
                by[m] = rec
                inner.append({'a': 'clone', 'on': src['name'], 'how': r.choice(HOW),
                              'as': m})
                if W.BY_KIND.get(W.kind_of(rec, by)):
                    inner.append(W.gen_op(r, [rec], by=by))
            for i, a in enumerate(inner):
                a['id'] = i
            push({'a': 'fork', 'acts': inner})
            if r.random() < .5 and W.BY_KIND.get(W.kind_of(src, by)):
                push(W.gen_op(r, [src], by=by))
            continue
        if kind == 'ship':
            names = [src['name']]
            if r.random() < .4:
                names = sorted({src['name']} | {x['name'] for x in r.sample(
                    live, min(len(live), r.randint(1, 5)))})
            pool = [by[n] for n in names if W.BY_KIND.get(W.kind_of(by[n], by))]
            inner = [W.gen_op(r, pool, by=by) for _ in range(r.randint(2, 4))] \
                if pool else []
            n = r.choice(names)
            d = derive(r, by[n], by, f'd{tid}_{len(acts)}')
            if d and r.random() < .5:
                inner.append({'a': 'make', 'rec': d})
                by2 = dict(by)
                by2[d['name']] = d
                if W.BY_KIND.get(W.kind_of(d, by2)):
                    inner.append(W.gen_op(r, [d], by=by2))
            for i, a in enumerate(inner):
                a['id'] = i
            push({'a': 'ship', 'on': names, 'proto': r.randint(0, 5),
                  'joint': int(r.random() < .5), 'acts': inner,
                  'fresh': int(r.random() < .3)})
            continue
        m = name()
        how = r.choice(HOW)
        push({'a': 'clone', 'on': src['name'], 'how': how, 'as': m})
        rec = dict(src, name=m)
        by[m] = rec
        mine = [rec]
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < .3:
                d = derive(r, r.choice(mine), by, name())
                if d:
                    by[d['name']] = d
                    push({'a': 'make', 'rec': d})
                    mine.append(d)
            c = [z for z in mine if W.BY_KIND.get(W.kind_of(z, by))]
            if c:
                push(W.gen_op(r, c, by=by))
            if x > .7 and W.BY_KIND.get(W.kind_of(src, by)):
                push(W.gen_op(r, [src], by=by))
        y = r.random()
        if y < .35:
            push({'a': 'vandal', 'on': m, 'deep': how != 'copy'})
            for z in [src] + r.sample(live, min(2, len(live))):
                if W.BY_KIND.get(W.kind_of(z, by)):
                    push(W.gen_op(r, [z], by=by))
        elif y < .45 and threads == 1 and how != 'copy':
            push({'a': 'vandal', 'on': src['name'], 'deep': True})
            live = mine
        elif how != 'copy' or r.random() < .5:
            live = live + [rec]          # copies of copies
    return acts


def gen_case(r, w):
    nt = r.choice([1, 1, 2, 2, 3])
    progs = [gen_program(r, w, 0, nt)]
    for t in range(1, nt):
        if r.random() < .3:
            progs.append(gen_program(r, w, t, nt))
        else:
            progs.append([W.gen_op(r, w) for _ in range(r.randint(1, 4))])
    if nt > 1 and r.random() < .5:
        # others work on what is being saved
        used = {a['on'] for a in progs[0] if a.get('a') == 'clone'} | \
            {n for a in progs[0] if a.get('a') == 'ship' for n in a['on']}
        by = {x['name']: x for x in w}
        used = [by[n] for n in sorted(used) if n in by
                and W.BY_KIND.get(W.kind_of(by[n], by))]
        if used:
            for p in progs[1:]:
                for i, a in enumerate(p):
                    if a.get('a', 'op') == 'op' and r.random() < .7 \
                            and a['on'] in by:
                        b = W.gen_op(r, used, by=by)
                        if 'id' in a:
                            b['id'] = a['id']
                        p[i] = b
    for p in progs:
        for i, a in enumerate(p):
            a.setdefault('id', 100000 + i)
    return progs


def gen_policy(r, progs):
    order = list(range(len(progs)))
    r.shuffle(order)
    if r.random() < .5:
        # stop somebody in the middle, let the saving client run
        a = r.randrange(1, len(progs)) if len(progs) > 1 else 0
        order = [0] + [x for x in order if x]
        if r.random() < .4:
            # or the one who saves, in the middle of that
            a, order = 0, order[1:] + [0]
        return {'kind': 'preempt', 'a': a, 'order': order, 'n': 1,
                'seed': r.randrange(1 << 30)}
    return {'kind': 'random', 'p': r.choice([.5, .1, .02, .004]),
            'seed': r.randrange(1 << 30)}


# ------------------------------------------------------------------- execution

def execute_case(objs, by, progs, spec, mode):
    alloc.arm('plain')
    if len(progs) == 1:
        r = E.Runner(dict(objs), dict(by))
        r.run(progs[0])
        runners, res, switches, first, dig, steps = [r], [('ok', None)], [], 0, '', 0
        where = []
    else:
        s, runners, res = E.run_threads(objs, by, progs, c01.policy(spec, len(progs)),
                                        mode)
        switches, dig, steps = s.switches, s.digest(), s.step
        first = s.first.idx if spec['kind'] != 'replay' else spec['first']
        where = [monitor.where(c, o) for (c, o), _ in s.pairs[:50]]
    return {'outs': [r.out for r in runners], 'same': [r.same for r in runners],
            'shipped': [r.shipped for r in runners],
            'res': [(x[0], None if x[0] == 'ok' else type(x[1]).__name__ + ': '
                     + canon.message(x[1]) if x[1] is not None else '')
                    for x in res],
            'switches': switches, 'first': first, 'digest': dig, 'steps': steps,
            'where': where}


def arrive(recs, a, names, data):
    """What the receiving process does"""
    if a['joint']:
        objs = pickle.loads(data)
    else:
        objs = {n: pickle.loads(d) for n, d in data.items()}
    return use(recs, a, objs)


def use(recs, a, objs):
    r = E.Runner(objs, {x['name']: x for x in recs})
    r.run(a['acts'])
    return r.out


def fresh(jobs):
    """A new interpreter loads the pickles before anything else is imported"""
    env = dict(os.environ)
    env['PYTHONPATH'] = boot.SRC + os.pathsep + boot.VERIF
    p = subprocess.run([sys.executable, '-B', os.path.join(boot.HERE, 'arrive.py')],
                       input=pickle.dumps(jobs, 4), capture_output=True, env=env,
                       timeout=120)
    if p.returncode:
        raise RuntimeError('arrive.py: ' + p.stderr.decode()[-2000:])
    return pickle.loads(p.stdout)


def receive(progs, recs, out):
    """Outcomes in the receiving processes: (thread, action) -> outcomes"""
    res = {}
    jobs = {}
    for t, p in enumerate(progs):
        for j, a in enumerate(p):
            if a.get('a') != 'ship' or a['id'] not in out['shipped'][t]:
                continue
            names, data = out['shipped'][t][a['id']]
            if a.get('fresh'):
                jobs[t, j] = (recs, a, names, data)
                continue

            def child(a=a, names=names, data=data):
                alloc.arm('plain')
                return arrive(recs, a, names, data)
            res[t, j] = proc.run(child, 60)
    if jobs:
        res.update(fresh(jobs))
    return res


# -------------------------------------------------------------------- verdict

def walk(progs):
    """(thread, action number, inner number or None, operation)"""
    for t, p in enumerate(progs):
        for j, a in enumerate(p):
            if a.get('a', 'op') == 'op':
                yield t, j, None, a
            elif a['a'] in ('ship', 'fork'):
                for i, b in enumerate(a['acts']):
                    if b.get('a', 'op') == 'op':
                        yield t, j, i, b


def recs_of(w, progs):
    out = list(w)
    by = {x['name']: x for x in w}

    def add(acts):
        for a in acts:
            if a.get('a') == 'make':
                by[a['rec']['name']] = a['rec']
                out.append(a['rec'])
            elif a.get('a') == 'clone' and a['on'] in by:
                rec = dict(by[a['on']], name=a['as'])
                by[a['as']] = rec
                out.append(rec)
            elif a.get('a') in ('ship', 'fork'):
                add(a['acts'])
    for p in progs:
        add(p)
    return out


def judge(progs, out, got, refs, by):
    for t, (r, msg) in enumerate(out['res']):
        if r == 'deadlock':
            return 'deadlock', 'threads wait for each other forever'
        if r == 'stepcap':
            return 'no progress', 'a call did not complete within 3 million steps'
        if r == 'raise':
            return 'escape', f'thread {t} died of {msg}'
    for t, p in enumerate(progs):
        hist = out['outs'][t]
        if out['same'][t]:
            nm = out['same'][t][0]
            return f'same/{W.kind_of(by[nm], by)}', f'{nm} is the original, no copy'
        for j, a in enumerate(p):
            k = a.get('a', 'op')
            if j >= len(hist):
                break
            o = hist[j]
            if k == 'clone' and o[0] == 'exc':
                kd = W.kind_of(by[a['on']], by)
                return f'clone/{kd}', f'{a["how"]} of {a["on"]} ({kd}): {o[1]}: {o[2]}'
            if k == 'ship' and o[0] == 'exc':
                kd = ', '.join(W.kind_of(by[n], by) for n in a['on'])
                return 'ship', f'pickling {a["on"]} ({kd}): {o[1]}: {o[2]}'
            if k == 'fork':
                if o[0] == 'exc':
                    return f'fork/{o[1]}', f'forked child: {o[1]}: {o[2]}'
            if k == 'ship' and o[0] == 'note':
                st, v = got.get((t, j), ('missing', None))
                if st == 'err':
                    kd = ', '.join(W.kind_of(by[n], by) for n in a['on'])
                    return 'load', (f'unpickling {a["on"]} ({kd}) in another process: '
                                    + v.strip().splitlines()[-1])
                if st != 'ok':
                    return 'arrive', f'receiving process: {st}'
            inner = o[1] if k == 'fork' else got[t, j][1] \
                if k == 'ship' and o[0] == 'note' else None
            for i, (b, x) in enumerate(zip(a['acts'], inner)) if inner else [(None, (a, o))]:
                kk = b.get('a', 'op')
                if kk == 'clone' and x[0] == 'exc' and i is not None:
                    kd = W.kind_of(by[b['on']], by)
                    return f'clone/{kd}', f'{b["how"]} of {b["on"]} ({kd}): {x[1]}: {x[2]}'
                if kk != 'op':
                    continue
                ref = refs.get(C.opkey(b))
                if x[0] == 'skip' or ref is None or ref[0] in (
                        'skip', 'err', 'hang', 'died'):
                    continue
                d = canon.outcome_differ(ref, x, TOL)
                if d:
                    kd = W.kind_of(by[b['on']], by)
                    at = '' if i is None else f' in {"forked child" if k == "fork" else "receiving process"}'
                    return (f'{b["op"]}/{kd}', f'thread {t}, action {j}{at}, '
                            f'{b["op"]} on {b["on"]} ({kd}): {d}')
    return None


def references(progs, recs):
    wanted = {}
    for _, _, _, a in walk(progs):
        wanted[C.opkey2(a, recs)] = (a, recs)
    return wanted


def world(r, i, tier, rec):
    w = W.gen_world(r)
    if r.random() < .15:
        heavy(r, w)
    by = {x['name']: x for x in w}
    cases = []
    for _ in range(12):
        progs = gen_case(r, w)
        cases.append((progs, gen_policy(r, progs),
                      r.choice(['call', 'line', 'instr'])))

    def zygote():
        alloc.arm('plain')
        objs = E.build_world(w)
        res = []
        seen = set()
        for progs, spec, mode in cases:
            if spec['kind'] == 'preempt' and len(progs) > 1:
                a = spec['a']
                st, locs = proc.run(lambda: E.count_points(
                    objs, by, [x for x in progs[a] if x.get('a', 'op') in
                               ('clone', 'make', 'ship') or
                               x.get('a', 'op') == 'op' and x['on'] in by],
                    mode), 60)
                if st != 'ok' or not locs:
                    locs = [(0, 0)]
                spec['ks'] = C.stratified(random.Random(spec['seed']), locs, seen,
                                          spec['n'])
            res.append(proc.run(lambda: execute_case(objs, by, progs, spec, mode),
                                150))
        return res
    st, results = proc.run(zygote, 900)
    if st != 'ok':
        raise RuntimeError(f'zygote: {st} {results}')
    wanted = {}
    for progs, _, _ in cases:
        wanted.update(references(progs, recs_of(w, progs)))
    refs2 = C.references(wanted)
    for (progs, spec, mode), (st, out) in zip(cases, results):
        rec.n['runs'] += 1
        recs = recs_of(w, progs)
        allby = {x['name']: x for x in recs}
        sc = {'world': w, 'threads': progs, 'policy': spec, 'mode': mode}
        if st != 'ok':
            if st == 'err':
                raise RuntimeError(out)
            rec.viol.append((st, f'process: {st}', sc))
            continue
        got = receive(progs, recs, out)
        refs = {C.opkey(a): refs2[C.opkey2(a, recs)] for *_, a in walk(progs)}
        stats(rec, progs, out, allby)
        v = judge(progs, out, got, refs, allby)
        if v:
            sc['policy'] = {'kind': 'replay', 'first': out['first'],
                            'switches': out['switches']}
            sc['where'] = out['where']
            rec.viol.append((v[0], v[1], sc))
        elif not rec.samples:
            rec.samples.append({'world': w, 'threads': progs,
                                'switches': out['switches'][:20]})


def stats(rec, progs, out, by):
    rec.n['steps'] += out['steps']
    rec.n['switches'] += len(out['switches'])
    n = 0
    for p, o in zip(progs, out['outs']):
        for a, x in zip(p, o):
            k = a.get('a', 'op')
            rec.n['action: ' + k] += 1
            if k == 'clone':
                rec.n[f'fault:{"pickle " if a["how"].isdigit() else ""}{a["how"]}'] += 1
                rec.sets['kinds copied'].add((W.kind_of(by[a['on']], by), a['how']))
            elif k == 'ship':
                rec.n['fault:load in ' + ('fresh interpreter' if a.get('fresh')
                                          else 'pristine process')] += 1
                for m in a['on']:
                    rec.sets['kinds shipped'].add(W.kind_of(by[m], by))
                n += len(a['acts'])
            elif k == 'fork':
                rec.n['fault:fork'] += 1
                n += len(a['acts'])
            elif k == 'vandal':
                rec.n['fault:one side destroyed'] += 1
            elif k == 'op' and a['on'].startswith('c'):
                n += 1
    rec.n['calls on copies'] += n
    if n:
        rec.case((json.dumps(progs, sort_keys=True), out['digest']))


def replay(sc):
    w, progs = sc['world'], sc['threads']
    recs = recs_of(w, progs)
    by = {x['name']: x for x in w}

    def child():
        alloc.arm('plain')
        objs = E.build_world(w)
        return execute_case(objs, by, progs, sc['policy'], sc['mode'])
    st, out = proc.run(child, 200)
    if st == 'err':
        raise RuntimeError(out)
    if st != 'ok':
        return st, f'process: {st}'
    got = receive(progs, recs, out)
    refs2 = C.references(references(progs, recs))
    refs = {C.opkey(a): refs2[C.opkey2(a, recs)] for *_, a in walk(progs)}
    v = judge(progs, out, got, refs, {x['name']: x for x in recs})
    if not v:
        return None
    return v[0], v[1], dict(sc, policy={'kind': 'replay', 'first': out['first'],
                                        'switches': out['switches']},
                            where=out['where'])


def shrink(sc):
    progs = sc['threads']
    pol = sc['policy']
    seq = {'kind': 'replay', 'first': 0, 'switches': []}
    if len(progs) > 1:
        for t in range(len(progs)):
            for q in (seq, pol):
                yield dict(sc, threads=[progs[t]], policy=q)
    for t, p in enumerate(progs):
        size = max(1, len(p) // 2)
        while size >= 1:
            for i in range(0, len(p), size):
                new = progs[:t] + [p[:i] + p[i + size:]] + progs[t + 1:]
                yield dict(sc, threads=new)
            size //= 2
        for i, a in enumerate(p):
            if a.get('a') in ('ship', 'fork') and len(a['acts']) > 1:
                for b in range(len(a['acts'])):
                    q = dict(a, acts=a['acts'][:b] + a['acts'][b + 1:])
                    yield dict(sc, threads=progs[:t] + [p[:i] + [q] + p[i + 1:]]
                               + progs[t + 1:])
    sw = pol.get('switches') or []
    size = len(sw) // 2
    while size >= 1:
        for i in range(0, len(sw), size):
            yield dict(sc, policy=dict(pol, switches=sw[:i] + sw[i + size:]))
        size //= 2
    names = []

    def add(acts):
        for a in acts:
            if a.get('a', 'op') in ('op', 'clone', 'vandal'):
                names.append(a['on'])
            elif a['a'] == 'make':
                names.extend(v for v in a['rec'].values() if isinstance(v, str))
            else:
                names.extend(a.get('on', ()))
                add(a['acts'])
    for p in progs:
        add(p)
    small = W.closure(sc['world'], names)
    if len(small) < len(sc['world']):
        yield dict(sc, world=small)
