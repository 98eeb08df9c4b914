"""F02: failures never turn into silently wrong numbers."""
import json
import random

import numpy as np

from .. import alloc, canon, execute as E, faults, proc, seams, world as W
from . import common as C, faulty

PROP = 'F02'
HOT = True
PLAN = {'quick': (700, 75), 'thorough': (40000, 780)}
RULE = ('A case is one execution: on a random world, one call, or one '
        'construction followed by calls on what was built, during which one '
        'failure is injected (MemoryError at any statement of the library; '
        'NumPy allocation fails once, several times or '
        'from then on; allocations above a size fail; a linear-algebra routine '
        'raises, returns NaN in all, one, or some entries of its output, or '
        'LAPACK reports non-convergence, a bad argument or denormals with or '
        'without damaged output). Accepted: an exception, a warning, NaN, or '
        'the result of the undisturbed call. Non-trivial: the failure was '
        'injected. Distinct: by case.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec']
STUB = ['NumPy array allocator (fails on demand)',
        'numerical back-ends when made to fail (otherwise real)']
ASSUME = ['a crash of NumPy itself on a failed allocation is not the '
          'library\'s doing',
          'tolerance for "what it would have returned": 1e-11 of the largest '
          'entry']
TOL = 1e-11

# what a failing back-end can do
HOW = ['LinAlgError', 'MemoryError', 'ValueError', 'nan-all', 'nan-one-output',
       'nan-one-entry', 'nan-tail']
HOW_JSV = ['info>0', 'info>0-garbage', 'info<0', 'denormal', 'nan-all',
           'nan-one-output']


def damage(a, how, rng):
    a = np.array(a)
    if a.dtype.kind == 'i' or not a.size:
        return a
    nan = np.array(np.nan).astype(a.dtype)
    if how == 'nan-one-entry':
        a.ravel()[rng.randrange(a.size)] = nan
    elif how == 'nan-tail':
        a.T[-(-a.shape[-1] // 2):] = nan
    else:
        a[...] = nan
    return a


class Ctl:
    def __init__(self, at, how, seed):
        self.n = 0
        self.at, self.how, self.rng = at, how, random.Random(seed)
        self.fired = None

    def call(self, name, fn, args, kwargs):
        self.n += 1
        if self.n != self.at:
            return fn(*args, **kwargs)
        how = self.how
        self.fired = f'{name}: {how}'
        if how == 'LinAlgError':
            raise np.linalg.LinAlgError('SVD did not converge')
        if how == 'MemoryError':
            raise MemoryError()
        if how == 'ValueError':
            raise ValueError('array must not contain infs or NaNs')
        out = fn(*args, **kwargs)
        if name == 'lapack.dgejsv' and how in HOW_JSV[:4]:
            s, u, v, w, iw, info = out
            if how == 'denormal':
                iw = np.array(iw)
                iw[2] = 1
            elif how == 'info<0':
                info = -3
            else:
                info = 1
                if how == 'info>0-garbage':
                    s, u, v = (np.array(x) * 1.5 for x in (s, u, v))
            return s, u, v, w, iw, info
        if how.startswith('nan') or how in HOW_JSV:
            if not how.startswith('nan'):
                how = 'nan-all'
            if isinstance(out, tuple):
                out = list(out)
                fl = [i for i, x in enumerate(out) if isinstance(x, np.ndarray)
                      and x.dtype.kind != 'i' and x.size]
                hit = fl if how == 'nan-all' else [self.rng.choice(fl)]
                for i in hit:
                    out[i] = damage(out[i], how, self.rng)
                return tuple(out)
            return damage(out, how, self.rng)
        raise AssertionError(how)


def install():
    """Extend the fault kinds by returning failures"""
    import contextlib
    orig = faults.inject

    @contextlib.contextmanager
    def inject(f, ctx=None):
        if f['kind'] == 'badend':
            fired = faults.Fired()
            ctl = Ctl(f['at'], f['how'], f.get('s', 0))
            seams.CONTROLLER = ctl
            try:
                yield fired
            finally:
                seams.CONTROLLER = None
                fired.at = ctl.fired
        elif f['kind'] == 'limit':
            fired = faults.Fired()
            alloc.arm('plain', fail_min=f['at'])
            try:
                yield fired
            finally:
                if alloc.cfg.n_failed:
                    fired.at = f'allocations of {f["at"]} bytes and more'
                alloc.arm('plain')
        else:
            with orig(f, ctx) as fired:
                yield fired
    return inject


def prepare(tier):
    faults.inject = install()


def choose(r, cnt, seen):
    opts = []
    if cnt['points']:
        opts += ['mem'] * 3
    if cnt['allocs']:
        opts += ['alloc'] * 3 + ['limit']
    if cnt['backend']:
        opts += ['badend'] * 9
    if not opts:
        return None
    k = r.choice(opts)
    if k == 'mem':
        # Python's own allocations, at places of the code not hit so far
        return {'kind': k, 'at': C.stratified(r, cnt['points'], seen, 1)[0]}
    if k == 'alloc':
        return {'kind': k, 'at': r.randint(1, cnt['allocs']),
                'count': r.choice([1, 1, 2, 5, 1000000])}
    if k == 'limit':
        return {'kind': k, 'at': r.choice([64, 256, 1024, 4096, 16384, 65536])}
    at = r.randint(1, len(cnt['backend']))
    how = r.choice(HOW_JSV if cnt['backend'][at - 1] == 'lapack.dgejsv'
                   and r.random() < .8 else HOW)
    return {'kind': k, 'at': at, 'how': how, 's': r.randrange(100)}


def run_case(objs, by, case):
    """Target, then calls on the object built: none of them disturbed"""
    alloc.arm('plain')
    r = E.Runner(dict(objs), dict(by))
    acts = [dict(a, id=i) for i, a in enumerate(case['target'])]
    acts[-1]['fault'] = case['fault']
    r.run(acts)
    fr = r.fired.get(acts[-1]['id'])
    first, warned = list(r.out), list(r.warn)
    r.out = []
    r.run([dict(a, id=100 + i) for i, a in enumerate(case['post'])])
    return {'tgt': first, 'post': r.out, 'fired': fr.at if fr else None,
            'warn': len(warned), 'warn2': len(r.warn),
            'texts': [x[:2] for x in warned[:3]]}


def judge(case, st, out, refs):
    f = case['fault']
    if st == 'hang':
        return 'hang', f'{f}: the process never finished'
    if st == 'died':
        return None if f['kind'] in ('alloc', 'limit') else \
            ('crash', f'{f}: the process died ({out})')
    if out['fired'] is None or out['warn'] > case.get('normal_warn', 0):
        return None
    recs = case['world'] + [a['rec'] for a in case['target']
                            if a.get('a') == 'make']
    by = {x['name']: x for x in recs}
    for a, got in [(case['target'][-1], out['tgt'][-1])] + \
            list(zip(case['post'], out['post'])):
        if a.get('a', 'op') != 'op':
            if got[0] == 'exc':
                return None
            continue
        ref = refs.get(C.opkey2(a, recs))
        if ref is None or ref[0] not in ('ret', 'exc'):
            continue
        if got[0] in ('exc', 'skip') or canon.has_nan(got[1]):
            continue
        d = canon.outcome_differ(ref, got, TOL)
        if d:
            k = W.kind_of(by[a['on']], by)
            return (f'silent/{f["kind"]}/{a["op"]}/{k}',
                    f'{out["fired"]}: no error, no warning, but {a["op"]} on '
                    f'{a["on"]} ({k}): {d}')
    return None


def gen_post(r, w, by, tgt):
    t = tgt[-1]
    if t.get('a') != 'make':
        return []
    recs = w + [x['rec'] for x in tgt]
    by = {x['name']: x for x in recs}
    k = W.kind_of(t['rec'], by)
    ops = [x.name for x in W.BY_KIND.get(k, ())]
    post = []
    for n in ('probe', 'polyattrs', 'matattrs'):
        if n in ops:
            post.append({'op': n, 'on': t['rec']['name'], 'p': {}})
    if ops:
        for _ in range(2):
            post.append(W.gen_op(r, recs, names={t['rec']['name']}, by=by))
    return post


def targets(r, w, by):
    if r.random() < .5:
        return faulty.gen_target(r, w, by)
    # things that use the back-end
    g = W.Gen(r)
    g.w, g.by, g.n = list(w), dict(by), 3000 + r.randrange(1000)
    n0 = len(g.w)
    k = r.random()
    if k < .06:
        # extended precision
        kn = g.kernel(r.choice('LB'), r.choice([2.5, 10.0]))
        return [{'a': 'make', 'rec': x} for x in g.w[n0:]] + [
            {'a': 'make', 'rec': {'name': 'xp', 't': 'sve', 'k': kn,
                                  'eps': r.choice([None, 1e-10])}}]
    if k < .2:
        # searches and integrals over functions with any number of features
        u = g.upoly(osc=1)
        if r.random() < .4:
            u = g.add('uft', o=u, freq=r.choice(['even', 'odd']), asy=None)
        f = g.add('item', o=u, i=r.randrange(5))
        x = r.choice([y for y in W.BY_KIND[W.kind_of(g.by[f], g.by)]
                      if y.name in ('roots', 'overlap', 'extrema',
                                    'sign_changes', 'call')])
        return [{'a': 'make', 'rec': y} for y in g.w[n0:]] + [
            {'op': x.name, 'on': f, 'p': x.gen(r, w)}]
    if k < .4:
        g.sve()
    elif k < .65:
        b = r.choice(g.names('basis') or [g.basis()])
        g.sampling(b)
    elif k < .8:
        b = [x for x in g.names('basis') if g._logistic(x)]
        if b:
            g.add('dlr', o=r.choice(b))
        else:
            g.basis()
    elif k < .9:
        g.basis()
    else:
        return [W.gen_op(r, w, kinds=('kernel', 'rule'), by=by)]
    return [{'a': 'make', 'rec': x} for x in g.w[n0:]] or \
        [W.gen_op(r, w, by=by)]


def world(r, i, tier, rec):
    w = W.gen_world(r, r.randint(3, 7))
    by = {x['name']: x for x in w}
    plan = []
    for _ in range(6):
        tgt = targets(r, w, by)
        plan.append((tgt, gen_post(r, w, by, tgt), r.randrange(1 << 30)))

    def zygote():
        alloc.arm('plain')
        objs = E.build_world(w)
        res = []
        seen = set()
        for tgt, post, seed in plan:
            rr = random.Random(seed)
            st, cnt = proc.run(lambda: faulty.count_target(objs, by, tgt), 60)
            if st == 'err':
                raise RuntimeError(cnt)
            if st != 'ok':
                continue
            for _ in range(7):
                f = choose(rr, cnt, seen)
                if f is None:
                    break
                case = {'world': w, 'target': tgt, 'post': post, 'fault': f,
                        'normal_warn': cnt['warns']}
                allby = {x['name']: x for x in w + [
                    a['rec'] for a in tgt if a.get('a') == 'make']}
                st, v = proc.run(lambda: run_case(objs, allby, case), 60)
                res.append((case, st, v))
        return res
    st, results = proc.run(zygote, 700)
    if st != 'ok':
        raise RuntimeError(f'zygote: {st} {results}')
    refs = references([c for c, _, _ in results])
    for case, st, out in results:
        if st == 'err':
            raise RuntimeError(out)
        rec.n['runs'] += 1
        f = case['fault']
        if st != 'ok':
            rec.n['NumPy crashed on failed allocation (not judged)'] += 1
        elif out['fired'] is None:
            rec.n['fault did not fire'] += 1
        else:
            rec.n['steps'] += 1
            name = f['kind'] if f['kind'] != 'badend' else out['fired']
            rec.n['fault:' + name] += 1
            got = out['tgt'][-1]
            rec.n['outcome: ' + ('exception' if got[0] == 'exc' else
                                 'warning' if out['warn'] > case['normal_warn']
                                 else 'returned')] += 1
            rec.case(json.dumps(case, sort_keys=True))
            t = case['target'][-1]
            allby = {x['name']: x for x in w + [
                a['rec'] for a in case['target'] if a.get('a') == 'make']}
            rec.sets['operations hit'].add(
                (t['op'], W.kind_of(allby[t['on']], allby))
                if t.get('a', 'op') == 'op' else ('make', t['rec']['t']))
        v = judge(case, st, out, refs)
        if v:
            rec.viol.append((v[0], v[1], case))
        elif not rec.samples and st == 'ok' and out['fired']:
            rec.samples.append({'case': case, 'fired': out['fired'],
                                'outcome': canon.describe(out['tgt'][-1])})


def references(cases):
    table = {}
    for case in cases:
        recs = case['world'] + [a['rec'] for a in case['target']
                                if a.get('a') == 'make']
        for a in case['target'] + case['post']:
            if a.get('a', 'op') == 'op':
                table[C.opkey2(a, recs)] = (a, recs)
    return C.references(table)


def replay(case):
    def child():
        alloc.arm('plain')
        by = {x['name']: x for x in case['world'] + [
            a['rec'] for a in case['target'] if a.get('a') == 'make']}
        return run_case(E.build_world(case['world']), by, case)
    st, out = proc.run(child, 120)
    if st == 'err':
        raise RuntimeError(out)
    return judge(case, st, out, references([case]))


def shrink(case):
    n = len(case['post'])
    for i in range(n):
        if n > 1 or case['target'][-1].get('a', 'op') == 'op':
            yield dict(case, post=case['post'][:i] + case['post'][i + 1:])
    f = case['fault']
    if f.get('count', 1) > 1:
        yield dict(case, fault=dict(f, count=1))
    if f['kind'] == 'alloc' and f['at'] > 1:
        yield dict(case, fault=dict(f, at=f['at'] // 2))
    names = []
    for a in case['target'] + case['post']:
        if a.get('a', 'op') == 'op':
            names.append(a['on'])
        else:
            names += [v for v in a['rec'].values() if isinstance(v, str)]
    small = W.closure(case['world'], names)
    if len(small) < len(case['world']):
        yield dict(case, world=small)
