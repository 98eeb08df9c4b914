"""C02: construction is reproducible bit for bit."""
import json
import os
import random
import subprocess
import sys
import tempfile

from .. import alloc, boot, canon, execute as E, faults, proc, world as W
from . import c01, common as C

PROP = 'C02'
HOT = True
PLAN = {'quick': (500, 70), 'thorough': (20000, 740)}
RULE = ('A case is one execution of a program that builds objects (kernels with '
        'both statistics, expansions in double and extended precision, bases, '
        'basis sets, samplings, pole representations, augmented bases, '
        'adapters) several times over, in a process with history: earlier '
        'calls and constructions, constructions of neighbours (one parameter '
        'nudged in its last digits or changed, the other precision), '
        'constructions cut short by injected faults, '
        'global random generators put into other states, clocks that jump or '
        'stall, other entropy and numbers of processors; or on 2-3 threads '
        'under the seeded scheduler, some building, some using objects. The '
        'numbers of every object are compared bit by bit with the same '
        'construction made alone in a fresh process; in addition with '
        'processes started with other hash seeds. Non-trivial: at least two '
        'constructions were compared. Distinct: by program and schedule.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec']
STUB = ['NumPy array allocator (fixed alignment, contents of fresh memory '
        'vary)', 'thread scheduler in cases with several threads',
        'numerical back-ends when made to raise (otherwise real)']
ASSUME = ['one installation: same CPU, BLAS and number of BLAS threads',
          'a thread switch inside one bytecode instruction or inside compiled '
          'code is not simulated']


def gen_request(r, g):
    """Names of recipes for one construction"""
    k = r.random()
    n0 = len(g.w)
    if k < .2:
        g.sve()
    elif k < .45:
        g.basis()
    elif k < .65:
        g.sampling()
    elif k < .75:
        g.sibling()
    else:
        g.derived()
    if len(g.w) == n0:
        return g.w[-1]['name']
    return g.w[-1]['name']


def heavy(r, g):
    k = g.kernel(r.choice('LLB'), r.choice([2.5, 10.0]))
    s = g.add('sve', k=k, eps=r.choice([None, 1e-10]))
    if r.random() < .5:
        return s
    stat = 'B' if g.by[k]['cls'] == 'B' else r.choice('FB')
    return g.add('basis', stat=stat, beta=1.0, wmax=g.by[k]['lam'],
                 eps=r.choice([None, 1e-9]), sve=s, k=k)


def build_act(r, w, name, share=False):
    recs = W.closure(w, [name])
    a = {'a': 'build', 'recs': recs}
    if share and len(recs) > 1:
        a['share'] = [x['name'] for x in recs[:-1]]
    return a


NUDGE = (1e-15, 1e-13, 1e-11, 1e-9, 1e-7, 1e-5)


def neighbour(r, recs):
    """The same construction but for one parameter, changed or nudged"""
    recs = json.loads(json.dumps(recs))
    by = {x['name']: x for x in recs}
    k = r.random()
    sves = [x for x in recs if x['t'] == 'sve']
    if k < .3:
        f = 1 + r.choice([-1, 1]) * r.choice(NUDGE)
        for x in recs:
            if x['t'] == 'kernel' or x['t'] == 'adapter':
                x['lam'] *= f
        for x in recs:
            if 'wmax' in x:
                if x.get('k') in by:
                    x['wmax'] = by[x['k']]['lam'] / x['beta']
                elif x.get('sve') in by:
                    x['wmax'] = by[by[x['sve']]['k']]['lam'] / x['beta']
                else:
                    x['wmax'] *= f
        return recs
    if k < .45:
        f = 1 + r.choice([-1, 1]) * r.choice(NUDGE)
        for x in recs:
            if x.get('eps'):
                x['eps'] *= f
        return recs
    if k < .6:
        # everything expanded in the other precision
        for x in sves:
            kw = dict(x.get('kw') or {})
            dd = not x.get('eps') or x['eps'] < 1e-8
            kw['n_gauss'] = kw.get('n_gauss') or (16 if dd else 10)
            kw.pop('work_dtype', None)
            x['kw'] = kw
            x['eps'] = r.choice([1e-4, 1e-6]) if dd else r.choice([None, 1e-9])
        for x in recs:
            if x['t'] == 'rule':
                x['dt'] = 'f8' if x.get('dt') == 'dd' else 'dd'
            if x['t'] != 'sve' and x.get('eps') and sves:
                x['eps'] = max([x['eps']] + [s['eps'] or 0 for s in sves])
        return recs
    x = r.choice(recs)
    t = x['t']
    if t == 'sve':
        kw = dict(x.get('kw') or {})
        c = r.choice(['n_sv', 'n_gauss', 'svd_strat', 'sve_strat', 'cutoff'])
        if c in kw:
            kw.pop(c)
        else:
            kw[c] = {'n_sv': r.choice([4, 9]), 'n_gauss': r.choice([8, 10, 16]),
                     'svd_strat': r.choice(['fast', 'default', 'accurate']),
                     'sve_strat': 'sampling', 'cutoff': r.choice([1e-3, 1e-5]),
                     }[c]
        x['kw'] = kw
    elif t in ('tau', 'mats', 'dlr') and x.get('pts'):
        x['pts'] = dict(x['pts'], s=x['pts']['s'] + 1)
    elif t == 'mats':
        x['pos'] = not x.get('pos')
    elif t in ('basis', 'bset', 'fbases'):
        if r.random() < .5:
            # same cutoff, other units
            f = r.choice([2.0, .5])
            x['beta'] *= f
            x['wmax'] /= f
        elif t == 'basis':
            x['max_size'] = r.choice([3, 6, None])
    elif t == 'slice':
        x['n'] += r.choice([-1, 1]) if x['n'] > 2 else 1
    elif t == 'rescale':
        x['beta'] *= r.choice([2.0, .5])
    elif t == 'item' and not isinstance(x['i'], list):
        x['i'] += 1
    elif t == 'rule':
        x['n'] += 1
    elif t == 'kernel' and len(recs) == 1:
        x['cls'] = 'B' if x['cls'] == 'L' else 'L'
    return recs


def gen_case(r, w, by, names):
    """A program, or several"""
    def near(progs):
        """Let similar things be built around what is built"""
        for p in progs:
            if r.random() > .6:
                continue
            for j in reversed(range(len(p))):
                if p[j].get('a') != 'build' or r.random() < .4:
                    continue
                a = {'a': 'build', 'free': 1,
                     'recs': neighbour(r, p[j]['recs'])}
                if r.random() < .3:
                    b = {'a': 'build', 'recs': p[j]['recs']}
                    p[j:j] = [b, a]
                else:
                    p[j:j] = [a]

    def acts(n, faulty):
        out = []
        for _ in range(n):
            x = r.random()
            if x < .5:
                a = build_act(r, w, r.choice(names), r.random() < .3)
                if faulty and r.random() < .3:
                    a['fault'] = 'later'
                out.append(a)
            elif x < .65:
                out.append({'a': 'rng' if x < .58 else 'amb',
                            's': r.randrange(1 << 20)})
            else:
                out.append(W.gen_op(r, w, by=by))
        return out
    case = {'world': w, 'pattern': r.choice(['plain', 'zero', 'nan', 'random']),
            'seed': r.randrange(1 << 30)}
    if r.random() < .45:
        nt = r.choice([2, 2, 3])
        progs = [acts(r.randint(1, 3), False) for _ in range(nt)]
        if r.random() < .5:
            n = r.choice(names)     # the same thing everywhere
            for p in progs:
                p.insert(0, build_act(r, w, n))
        progs[0].insert(0, build_act(r, w, r.choice(names)))
        near(progs)
        case['threads'] = progs
        case['mode'] = r.choice(['call', 'call', 'line'])
        case['kind'] = r.choice(['random', 'random', 'preempt'])
        case['n'] = r.choice([1, 2])
        case['order'] = list(range(nt))
        r.shuffle(case['order'])
    else:
        case['acts'] = acts(r.randint(4, 9), True)
        case['acts'].append(build_act(r, w, r.choice(names)))
        near([case['acts']])
    return case


def execute(objs, by, case):
    alloc.arm(case['pattern'], seed=7)
    if case.get('threads'):
        pol = c01.policy(case['policy'], len(case['threads']))
        s, runners, res = E.run_threads(objs, by, case['threads'], pol,
                                        case['mode'])
        return {'outs': [[slim(o) for o in x.out] for x in runners],
                'res': [(x[0], '' if x[0] == 'ok' else repr(x[1])[:200])
                        for x in res],
                'switches': s.switches, 'first': s.first.idx, 'steps': s.step,
                'digest': s.digest(), 'fired': []}
    r = E.Runner(dict(objs), dict(by))
    r.run([dict(a, id=i) for i, a in enumerate(case['acts'])])
    return {'outs': [[slim(o) for o in r.out]], 'res': [], 'steps': len(r.out),
            'fired': [f.at for f in r.fired.values()]}


def slim(o):
    """Results of calls are not looked at here"""
    return o if o[0] == 'dig' or E.FULL else \
        o[:3] if o[0] == 'exc' else ('x',)


def programs(case):
    return case.get('threads') or [case['acts']]


def key_of(a):
    return json.dumps(a['recs'], sort_keys=True)


def references(recss):
    """key -> outcome of building it alone in a fresh process"""
    out = {}
    full = E.FULL
    for key, recs in recss.items():
        def child(recs=recs):
            E.FULL = full
            alloc.arm('plain')
            r = E.Runner({}, {})
            return r.do_build(0, {'recs': recs})
        st, v = proc.run(child, 120)
        if st == 'err':
            raise RuntimeError(v)
        out[key] = v if st == 'ok' else (st,)
    return out


def differ(ref, got):
    if ref[0] == 'dig' or got[0] == 'dig':
        if ref == got:
            return None
        return 'numbers differ' if ref[0] == got[0] else \
            f'{canon.describe(got)} instead of {canon.describe(ref)}'
    return canon.outcome_differ(ref, got, None)


def judge(case, st, out, refs):
    if st in ('hang', 'died'):
        return st, f'process: {st}'
    for t, (x, msg) in enumerate(out['res']):
        if x != 'ok':
            return x, f'thread {t}: {x} {msg}'
    for t, p in enumerate(programs(case)):
        for j, a in enumerate(p):
            if a.get('a') != 'build' or a.get('fault') or a.get('free'):
                continue
            ref = refs[key_of(a)]
            got = out['outs'][t][j]
            if ref[0] in ('hang', 'died') or got[0] == 'skip':
                continue
            d = differ(ref, got)
            if d:
                last = a['recs'][-1]
                where = f'thread {t}, ' if case.get('threads') else ''
                return (f'bits/{last["t"]}', f'{where}action {j}: building '
                        f'{last}: {d}')
    return None


def world(r, i, tier, rec):
    g = W.Gen(r)
    g.basis()
    names = [g.w[-1]['name']]
    for _ in range(r.randint(3, 6)):
        names.append(gen_request(r, g))
    w = list(g.w)
    wobj = list(w)
    if r.random() < .15:
        names.append(heavy(r, g))
        names.append(names[-1])
        w = list(g.w)
    by = {x['name']: x for x in w}
    names = [n for n in names]
    cases = [gen_case(r, wobj if len(wobj) == len(w) else w, by, names)
             for _ in range(8)]

    def zygote():
        alloc.arm('plain')
        objs = E.build_world(wobj)
        seen = set()
        res = []
        for case in cases:
            rr = random.Random(case['seed'])
            if case.get('threads'):
                n = len(case['threads'])
                if case['kind'] == 'preempt':
                    a = rr.randrange(n)
                    st, locs = proc.run(lambda: E.count_points(
                        objs, by, case['threads'][a], case['mode']), 60)
                    if st != 'ok' or not locs:
                        locs = [(0, 0)]
                    case['policy'] = {
                        'kind': 'preempt', 'a': a, 'order': case['order'],
                        'ks': C.stratified(rr, locs, seen, case['n'])}
                else:
                    case['policy'] = {'kind': 'random', 'seed': case['seed'],
                                      'p': rr.choice([.5, .1, .01, .002])}
            else:
                for a in case['acts']:
                    if a.get('fault') == 'later':
                        b = {k: v for k, v in a.items() if k != 'fault'}
                        st, cnt = proc.run(
                            lambda: E.count_faults(objs, by, b), 60)
                        a['fault'] = faults.choose(
                            rr, cnt, seen, ('kbd', 'mem', 'alloc', 'backend',
                                            'warn')) if st == 'ok' else None
            st, v = proc.run(lambda: execute(objs, by, case), 120)
            res.append((case, st, v))
        return res
    st, results = proc.run(zygote, 700)
    if st != 'ok':
        raise RuntimeError(f'zygote: {st} {results}')
    recss = {key_of(a): a['recs'] for c, _, _ in results for p in programs(c)
             for a in p if a.get('a') == 'build' and not a.get('free')}
    refs = references(recss)
    for key, recs in recss.items():
        rec.sets['objects built'].add(recs[-1]['t'])
        # for the comparison across hash seeds
        if len(rec.samples) == 0 and i < 60 and refs[key][0] == 'dig':
            rec.samples.append({'hash': (recs, refs[key])})
    for case, st, out in results:
        if st == 'err':
            raise RuntimeError(out)
        rec.n['runs'] += 1
        if st == 'died' and any((a.get('fault') or {}).get('kind') == 'alloc'
                                for a in case.get('acts', ())):
            rec.n['NumPy crashed on failed allocation (not judged)'] += 1
            continue
        n = sum(a.get('a') == 'build' and not a.get('fault')
                and not a.get('free') for p in programs(case) for a in p)
        if st == 'ok':
            rec.n['steps'] += out['steps']
            rec.n['constructions compared'] += n
            rec.n['executions with several threads'] += bool(case.get('threads'))
            k = 0
            rec.n['constructions of neighbours'] += sum(
                bool(a.get('free')) for p in programs(case) for a in p)
            for a in case.get('acts', ()):
                if a.get('a') == 'build' and a.get('fault'):
                    if k < len(out['fired']) and out['fired'][k] is not None:
                        rec.n['fault:' + a['fault']['kind']] += 1
                    k += 1
                if a.get('a') == 'rng':
                    rec.n['fault:random generators disturbed'] += 1
                if a.get('a') == 'amb':
                    rec.n['fault:clocks, entropy and machine changed'] += 1
            if n >= 2:
                rec.case((json.dumps(case, sort_keys=True), out.get('digest')))
        v = judge(case, st, out, refs)
        if v:
            if case.get('threads') and st == 'ok':
                case = dict(case, policy={'kind': 'replay', 'first': out['first'],
                                          'switches': out['switches']})
            rec.viol.append((v[0], v[1], case))


HASH_CHILD = '''
import sys, json, pickle
sys.path.insert(0, sys.argv[1])
from dst import boot
boot.ensure_env()
from dst import execute as E
E.setup()
from dst.checks import c02
E.FULL = len(sys.argv) > 3
table = json.load(open(sys.argv[2]))
print('RESULT ' + pickle.dumps(c02.references(
    {k: v for k, v in table})).hex())
'''


def other_hash_seed(table, seed, full=False):
    import pickle
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 't.json')
        with open(p, 'w') as f:
            json.dump(list(table.items()), f)
        s = os.path.join(d, 'child.py')
        with open(s, 'w') as f:
            f.write(HASH_CHILD)
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        q = subprocess.run([sys.executable, '-B', s, boot.VERIF, p]
                           + (['full'] if full else []),
                           env=env, capture_output=True, text=True, timeout=300)
    for line in q.stdout.splitlines():
        if line.startswith('RESULT '):
            return pickle.loads(bytes.fromhex(line[7:]))
    raise RuntimeError('process with other hash seed: ' + q.stderr[-2000:])


def extra(tot, tier, seed):
    """Same constructions in processes with other hash seeds"""
    table = {}
    refs = {}
    for s in tot.samples:
        if 'hash' in s:
            recs, ref = s['hash']
            table[json.dumps(recs, sort_keys=True)] = recs
            refs[json.dumps(recs, sort_keys=True)] = ref
    tot.samples = [{'construction': s['hash'][0], 'digest of its numbers':
                    s['hash'][1][1]} for s in tot.samples if 'hash' in s][:4]
    if not table:
        return
    for hs in [1 + seed, 12345] + list(range(20, 20 + (8 if tier == 'thorough'
                                                       else 0))):
        try:
            got = other_hash_seed(table, hs)
        except RuntimeError as e:
            tot.errors.append((-1, str(e)))
            return
        tot.n['constructions compared across hash seeds'] += len(got)
        tot.n['fault:other hash seed'] += 1
        for key, v in got.items():
            if v != refs[key]:
                t = table[key][-1]['t']
                tot.viol.append((-1, f'hashseed/{t}',
                                 f'building {table[key][-1]} with '
                                 f'PYTHONHASHSEED={hs}: numbers differ',
                                 {'hashseed': hs, 'recs': table[key]}))
                return


def replay(case):
    if 'hashseed' in case:
        E.FULL = True
        key = json.dumps(case['recs'], sort_keys=True)
        ref = references({key: case['recs']})[key]
        E.FULL = False
        got = other_hash_seed({key: case['recs']}, case['hashseed'], True)[key]
        d = differ(ref, got)
        t = case['recs'][-1]['t']
        return (f'hashseed/{t}', f'building {case["recs"][-1]} with '
                f'PYTHONHASHSEED={case["hashseed"]}: {d}') if d else None
    if case.get('threads') and 'policy' not in case:
        return None

    def child():
        E.FULL = True
        need = {n for p in programs(case) for a in p for n in a.get('share', ())} \
            | {a['on'] for p in programs(case) for a in p
               if a.get('a', 'op') == 'op'}
        alloc.arm('plain')
        by = {x['name']: x for x in case['world']}
        objs = E.build_world(W.closure(case['world'], need))
        return execute(objs, by, case)
    st, out = proc.run(child, 200)
    if st == 'err':
        raise RuntimeError(out)
    E.FULL = True
    try:
        refs = references({key_of(a): a['recs'] for p in programs(case)
                           for a in p if a.get('a') == 'build'})
    finally:
        E.FULL = False
    v = judge(case, st, out, refs)
    if v and st == 'ok' and case.get('threads'):
        case = dict(case, policy={'kind': 'replay', 'first': out['first'],
                                  'switches': out['switches']})
        return v[0], v[1], case
    return v


def shrink(case):
    if 'hashseed' in case:
        return
    if case.get('threads'):
        yield {'world': case['world'], 'pattern': case['pattern'],
               'acts': [a for p in case['threads'] for a in p]}
        for sc in c01.shrink(dict(case, share=False)):
            sc = dict(sc)
            sc.pop('share', None)
            if len(sc['world']) == len(case['world']):
                yield sc
        return
    if case['pattern'] != 'plain':
        yield dict(case, pattern='plain')
    acts = case['acts']
    n = len(acts)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(case, acts=acts[:i] + acts[i + size:])
        size //= 2
    names = [a['on'] for a in acts if a.get('a', 'op') == 'op'] + \
        [a['recs'][-1]['name'] for a in acts if a.get('a') == 'build']
    small = W.closure(case['world'], names)
    if len(small) < len(case['world']):
        yield dict(case, world=small)
