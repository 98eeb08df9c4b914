"""B01: the expansion is right for every legal back-end answer."""
import json
import random

import numpy as np

from .. import alloc, boot, canon, execute as E, proc, seams

PROP = 'B01'
PLAN = {'quick': (900, 70), 'thorough': (40000, 780)}
RULE = ('A case is one computation of a singular value expansion by the real '
        'library, for a random kernel, cutoff, accuracy, solver strategy and '
        'order, on top of a simulated numerical back-end that answers legally '
        'but otherwise than the real one: the real routine is called on input '
        'perturbed at rounding level, the sign of every pair of singular '
        'vectors is drawn at random, eigenvalues move by some ulps, the global '
        'random generators hold arbitrary states. Checked against independent '
        'formulas: reproduction of the kernel, order and positivity of the '
        'singular values, orthonormality by independent quadrature, parity, '
        'sign at the upper end, agreement with the undisturbed answer. '
        'Non-trivial: at least one answer of the back-end was changed. '
        'Distinct: by configuration and random choices.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec '
        '(called by the simulated back-end)']
STUB = ['answers of singular value decompositions and eigenvalue solvers '
        '(perturbed within their error bounds)', 'global random generators']
ASSUME = ['backward-stable solvers: perturbations of 4 units of rounding (double '
          'precision; 6e-33 in extended) of the largest entry (Jacobi: of each '
          'column)',
          'tolerances are at least 4 times the largest deviation seen on the '
          'unchanged tree, see DESIGN.md']
EPS = {'f8': 2.2e-16, 'dd': 1.5e-33}


class Legal:
    """Back-end that answers legally"""
    def __init__(self, seed, signs=True, noise=True, eig=True):
        self.rng = np.random.RandomState(seed)
        self.signs, self.noise, self.eig = signs, noise, eig
        self.n = {}

    def _note(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def _perturb(self, a, jacobi):
        a = np.asarray(a)
        if a.size == 0 or a.dtype.kind in 'iub':
            return a
        dd = a.dtype.kind not in 'fc'
        eps = EPS['dd'] if dd else EPS['f8']
        if jacobi:
            scale = np.abs(a).max(axis=0, keepdims=True)
        else:
            scale = np.abs(a).max()
        z = self.rng.uniform(-1, 1, size=a.shape) * (4 * eps)
        self._note('rounding')
        return a + (z.astype(a.dtype) * scale)

    def _svd(self, u, s, v):
        """v: matrix with singular vectors as columns"""
        u, s, v = np.array(u), np.array(s), np.array(v)
        if self.signs:
            sg = np.where(self.rng.uniform(size=s.size) < .5, -1.0, 1.0)
            sg = sg.astype(u.dtype)
            u[:, :s.size] = u[:, :s.size] * sg
            v[:, :s.size] = v[:, :s.size] * sg
            self._note('signs')
        return u, s, v

    def call(self, name, fn, args, kwargs):
        if name in seams.EIG_NAMES:
            out = fn(*args, **kwargs)
            if not self.eig:
                return out
            self._note('eigenvalues')

            def move(x):
                x = np.asarray(x)
                m = np.abs(x).max() if x.size else 0
                return x + self.rng.randint(-8, 9, size=x.shape) * (EPS['f8'] * m)
            if isinstance(out, tuple):
                return (move(out[0]),) + tuple(out[1:])
            return move(out)
        if name in seams.SVD_NAMES:
            args = list(args)
            if not args:
                # matrix given by keyword
                for key in ('a', 'A'):
                    if key in kwargs:
                        if self.noise:
                            kwargs = dict(kwargs)
                            kwargs[key] = self._perturb(kwargs[key], False)
                        break
            elif self.noise and not callable(args[0]):
                args[0] = self._perturb(args[0], name == 'lapack.dgejsv')
            out = fn(*args, **kwargs)
            if not isinstance(out, tuple):
                return out                  # singular values only
            if name == 'lapack.dgejsv':
                s, u, v = out[:3]
                u, s, v = self._svd(u, s, v)
                return (s, u, v) + tuple(out[3:])
            if name == 'interpolative.svd':
                return self._svd(*out)
            u, s, vh = out
            u, s, v = self._svd(u, s, np.asarray(vh).T)
            return u, s, np.ascontiguousarray(v.T)
        return fn(*args, **kwargs)


# ------------------------------------------------------------------- oracles

def kernel_exact(cls, lam, x, y):
    """Kernel from its definition, in extended floating point"""
    x = np.asarray(x, np.longdouble)
    y = np.asarray(y, np.longdouble)
    lam = np.longdouble(lam)
    # divide through such that no exponential overflows
    a = np.abs(lam * y)
    t = np.where(y >= 0, (x + 1) / 2, (1 - x) / 2)
    if cls == 'L':
        return np.exp(-a * t) / (1 + np.exp(-a))
    with np.errstate(all='ignore'):
        f = np.where(a == 0, 1 / lam, np.abs(y) / -np.expm1(-np.where(a == 0, 1, a)))
    return f * np.exp(-a * t)


def quad(knots, k):
    """Gauss points and weights on every segment"""
    x, w = np.polynomial.legendre.leggauss(k)
    a, b = knots[:-1, None], knots[1:, None]
    return (a + (b - a) * (x + 1) / 2).ravel(), (w * (b - a) / 2).ravel()


def sample_points(r, n, lam):
    """Points in [-1, 1], crowded towards the ends and the centre"""
    u = r.uniform(-1, 1, size=n)
    e = 10.0 ** r.uniform(-np.log10(lam + 10) - 2, 0, size=n)
    z = np.hstack([u, 1 - e, -1 + e, e, -e, [-1, 0, 1]])
    return np.clip(z, -1, 1)


def measure(res, cfg, seed):
    """All deviations, as dictionary"""
    u, s, v = res
    s = np.asarray(s)
    lam, cls = cfg['lam'], cfg['cls']
    out = {'n': int(s.size)}
    if not (np.isfinite(s).all() and s.size):
        return dict(out, bad='singular values not finite or none')
    out['smin'] = float(s.min())
    out['order'] = float((s[1:] - s[:-1]).max()) if s.size > 1 else -1.0
    out['s0'] = float(s[0])
    r = np.random.RandomState(seed)
    x, y = sample_points(r, 12, lam), sample_points(r, 12, lam)
    ux, vy = u(x), v(y)
    K = kernel_exact(cls, lam, x[:, None], y[None, :])
    with np.errstate(all='ignore'):
        rec = np.einsum('lx,l,ly->xy', ux, s, vy)
        # compared in the norm in which the expansion converges pointwise
        scale = float(np.abs(K).max())
        out['repr'] = float(np.abs(rec - K).max() / scale)
        out['umax'] = float(np.abs(ux).max())
    g = {}
    for nm, f in (('u', u), ('v', v)):
        xq, wq = quad(np.asarray(f.knots, float), f.data.shape[0] + 2)
        fx = f(xq)
        G = (fx * wq) @ fx.T
        g['orth ' + nm] = float(np.abs(G - np.eye(s.size)).max())
        # alternating parity
        z = r.uniform(0, 1, size=25)
        z = np.hstack([z, [1.0]])
        sg = (-1.0) ** np.arange(s.size)[:, None]
        d = np.abs(f(z) - sg * f(-z)).max(axis=1) / np.abs(f(z)).max(axis=1)
        g['parity ' + nm] = d.tolist()
        sy = f.symm
        g['symm ' + nm] = [int(q) for q in np.broadcast_to(sy, s.shape)] \
            if sy is not None else None
    out.update(g)
    out['end'] = float(u(1.0).min())
    out['finite'] = bool(np.isfinite(ux).all() and np.isfinite(vy).all())
    out['s'] = s.tolist()
    z = np.linspace(-1, 1, 17)
    out['ugrid'], out['vgrid'] = u(z), v(z)
    return out


def accuracy(cfg):
    """Accuracy the request promises, and relative size of the last singular
    value up to which single functions can be meaningful"""
    dd = cfg['dd']
    base = 2.3e-16 if dd else 1e-8
    eps = cfg['eps'] if cfg['eps'] is not None else base
    return max(eps, base)


def compute(cfg):
    import sparse_ir
    from sparse_ir import kernel
    from sparse_ir.sve import SamplingSVE, CentrosymmSVE
    K = {'L': kernel.LogisticKernel,
         'B': kernel.RegularizedBoseKernel}[cfg['cls']](cfg['lam'])
    kw = {}
    for k in ('cutoff', 'n_sv', 'n_gauss', 'svd_strat'):
        if cfg.get(k) is not None:
            kw[k] = cfg[k]
    if cfg.get('strat') == 'sampling':
        kw['sve_strat'] = SamplingSVE
    elif cfg.get('strat') == 'centrosymm':
        kw['sve_strat'] = CentrosymmSVE
    if cfg.get('work'):
        kw['work_dtype'] = np.float64
    if cfg.get('via') == 'basis':
        b = sparse_ir.FiniteTempBasis('B' if cfg['cls'] == 'B' else 'F', 1.0,
                                      cfg['lam'], cfg['eps'], kernel=K)
        return b.sve_result
    return sparse_ir.compute_sve(K, cfg['eps'], **kw)


def compute_rule(cfg):
    """Quadrature rule: error of nodes, and of moments"""
    from sparse_ir import _gauss, svd
    n = cfg['rule']
    rule = _gauss.legendre(n, float if cfg['type'] == 'f8' else svd.MAX_DTYPE)
    x, w = np.polynomial.legendre.leggauss(n)
    dx = np.abs(np.asarray(rule.x, float) - x).max()
    fw = np.asarray(rule.x_forward, float)
    bw = np.asarray(rule.x_backward, float)
    return {'n': n, 'dx': max(float(dx), float(np.abs(fw - 1 - x).max()),
                              float(np.abs(1 - bw - x).max())),
            'dw': float(np.abs(np.asarray(rule.w, float) - w).max())}


def run_case(cfg, answers):
    """The undisturbed answer, then the others"""
    out = []
    for a in [None] + answers:
        alloc.arm('plain')
        w = []
        canon.WARN[E._thread.get_ident()] = w
        ctl = None
        if a is not None:
            E.disturb(a['seed'])
            ctl = Legal(a['seed'], a['signs'], a['noise'], a['eig'])
        seams.CONTROLLER = ctl
        try:
            if 'rule' in cfg:
                out.append(dict(compute_rule(cfg), changed=ctl.n if ctl else {},
                                warn=[x[1] for x in w]))
                continue
            res = compute(cfg)
            part = None
            if a is not None and cfg.get('part'):
                p = res.part(cfg['part'])
                part = int(np.asarray(p[1]).size)
        except Exception as e:                          # noqa: B902
            seams.CONTROLLER = None
            out.append({'exc': f'{type(e).__name__}: {e}'})
            continue
        finally:
            seams.CONTROLLER = None
        m = measure(res, cfg, 5)
        m['changed'] = dict(ctl.n) if ctl else {}
        m['part'] = part
        m['warn'] = [x[1] for x in w]
        out.append(m)
    return out


# ----------------------------------------------------------------- tolerances

def limits(cfg, m):
    acc = accuracy(cfg)
    cut = cfg.get('cutoff') or 0
    u = EPS['f8']           # results are stored in double precision
    full = cfg.get('n_sv') is None and (cfg.get('n_gauss') or 16) >= 10
    return {
        'repr': 4 * acc + 10 * cut * m['umax'] ** 2 + 3e-13 if full else None,
        'orth': 1e-10 + 1e-12 * min(cfg['lam'], 1e4) if acc >= 1e-8 else 1e-12,
        'good': max(10 * acc, 1e-13, 2 * cut),
        'acc': acc, 'u': u, 'rough': (cfg.get('n_gauss') or 16) < 10,
    }


def check(cfg, m, ref, worst=None):
    """None or (key, text)"""
    def note(k, v):
        if worst is not None:
            worst[k] = max(worst.get(k, 0), float(v))
    if 'exc' in m:
        return 'raises', m['exc']
    if 'rule' in cfg:
        note('rule', max(m['dx'], m['dw']) / 1e-13)
        if not max(m['dx'], m['dw']) <= 1e-13:
            return 'rule', (f'nodes off by {m["dx"]:.3g}, weights by '
                            f'{m["dw"]:.3g}')
        if m['warn']:
            return 'rule', f'warning {m["warn"]}'
        return None
    if 'bad' in m:
        return 'singular values', m['bad']
    if not m['finite']:
        return 'finite', 'functions are not finite'
    lim = limits(cfg, m)
    if m['smin'] <= 0:
        return 'positive', f'singular value {m["smin"]} not positive'
    if m['order'] > 0:
        return 'order', f'singular values increase by {m["order"]:.3g}'
    if lim['repr'] is not None:
        note('repr', m['repr'] / lim['repr'])
        if not m['repr'] <= lim['repr']:
            return 'kernel', (f'kernel reproduced to {m["repr"]:.3g} only '
                              f'(requested {lim["acc"]:.3g})')
    for nm in 'uv':
        note('orth', m['orth ' + nm] / lim['orth'])
        if not m['orth ' + nm] <= lim['orth']:
            return f'orthonormal {nm}', (f'{nm} orthonormal to '
                                         f'{m["orth " + nm]:.3g} only')
    if not m['end'] > 0:
        return 'sign', f'u at the upper end is {m["end"]:.3g}'
    if lim['rough']:
        return None
    s = np.array(m['s']) / m['s0']
    good = s > lim['good']
    for nm in 'uv':
        sy = m['symm ' + nm]
        for l in np.nonzero(good)[0]:
            tol = 1e-6 + 10 * lim['acc']
            note('parity', m['parity ' + nm][l] / tol)
            if not m['parity ' + nm][l] <= tol:
                return 'parity', (f'{nm}[{l}] is not {"odd" if l % 2 else "even"} '
                                  f'({m["parity " + nm][l]:.3g})')
            if sy is not None and sy[l] != 0 and sy[l] != (-1) ** l:
                return 'symm', f'{nm}[{l}].symm is {sy[l]}'
    if ref is None or 'exc' in ref:
        return None
    # agreement
    n = min(m['n'], ref['n'])
    sr = np.array(ref['s'])[:n] / ref['s0']
    d = np.abs(np.array(m['s'])[:n] / ref['s0'] - sr).max()
    tol = lim['acc']
    note('s', d / tol)
    if not d <= tol:
        return 'agree s', f'singular values differ by {d:.3g} (relative to first)'
    ngood = int((sr > lim['good']).sum())
    if m['n'] < ngood:
        return 'number', f'{m["n"]} functions instead of {ref["n"]}'
    for nm in 'uv':
        a, b = m[nm + 'grid'][:ngood], ref[nm + 'grid'][:ngood]
        if not ngood:
            continue
        dd = np.abs(a - b).max(axis=1) / np.abs(b).max(axis=1)
        # rounding is amplified by the distance to the next singular value
        gap = np.abs(np.diff(np.hstack([2.0, np.array(ref['s']) / ref['s0'], 0.0])))
        gap = np.minimum(gap[:-1], gap[1:])[:ngood]
        tol = 10 * lim['acc'] + 1e-12 + (1e-29 if cfg['dd'] else 3e-12) / gap
        note('fun ' + nm, (dd / tol).max())
        if not (dd <= tol).all():
            l = int((dd / tol).argmax())
            return f'agree {nm}', (f'{nm}[{l}] (singular value {sr[l]:.3g}) differs '
                                   f'by {dd[l]:.3g} (requested {lim["acc"]:.3g})')
    return None


def gen_cfg(r, tier):
    if r.random() < .1:
        return {'rule': r.choice([1, 2, 3, 4, 5, 8, 10, 12, 16, 31, 60,
                                  r.randint(1, 90)]),
                'type': r.choice(['f8', 'max', 'max'])}
    cfg = {'cls': r.choice('LLB'), 'dd': False}
    if r.random() < .12:
        cfg['dd'] = True
        cfg['lam'] = r.choice([1.0, 2.5, 10.0, 42.0, round(10 ** r.uniform(-1, 1.5), 3)])
        cfg['eps'] = r.choice([None, None, 1e-9, 1e-10, 1e-12, 1e-15])
        if r.random() < .2:
            cfg['via'] = 'basis'
        if r.random() < .2:
            cfg['strat'] = 'centrosymm'
        return cfg
    cfg['lam'] = r.choice([.1, 1.0, 2.5, 10.0, 42.0, 100.0, 1e3,
                           round(10 ** r.uniform(-1, 3.5), 4)])
    if r.random() < (.03 if tier == 'quick' else .1):
        cfg['lam'] = r.choice([1e4, 1e4, 1e5, 2e5])
    cfg['eps'] = r.choice([1e-8, 1e-8, 1e-8, 1e-7, 1e-6, 1e-5, 1e-3, 1e-1])
    if r.random() < .3:
        cfg['svd_strat'] = r.choice(['fast', 'default', 'accurate'])
    if r.random() < .2:
        cfg['strat'] = r.choice(['sampling', 'centrosymm'])
    if r.random() < .2:
        cfg['n_gauss'] = r.choice([4, 5, 11, 12, 13, 16, 20])
    if r.random() < .15:
        cfg['n_sv'] = r.randint(1, 12)
    if r.random() < .15:
        cfg['cutoff'] = r.choice([1e-13, 1e-10, 1e-8])
    if r.random() < .1:
        cfg['work'] = 1
        cfg['eps'] = r.choice([1e-8, 1e-10, 1e-14, None])
    elif len(cfg) == 4 and r.random() < .3:
        cfg['via'] = 'basis'
    if r.random() < .3:
        cfg['part'] = r.choice([1e-2, 1e-5])
    if cfg['lam'] >= 1e4 and tier == 'quick':
        # Jacobi SVDs of large matrices take a minute
        cfg.pop('work', None)
        cfg['eps'] = max(cfg['eps'] or 1e-8, 1e-8)
        if cfg.get('svd_strat') == 'accurate':
            cfg['svd_strat'] = 'default'
        if cfg.get('n_gauss', 0) > 12:
            cfg['n_gauss'] = 12
    return cfg


def gen_answer(r):
    k = r.random()
    return {'seed': r.randrange(1 << 30),
            'signs': k < .85, 'noise': r.random() < .8, 'eig': r.random() < .7}


WORST = None


def judge(cfg, answers, outs, worst=None):
    ref = outs[0]
    v = check(cfg, ref, None, worst)
    if v:
        return v[0], f'undisturbed back-end, {cfg}: {v[1]}', 0
    for j, (a, m) in enumerate(zip(answers, outs[1:])):
        v = check(cfg, m, ref, worst)
        if v:
            return v[0], f'{cfg}, legal answer {a}: {v[1]}', j
        if m.get('part') is not None and cfg.get('n_sv') is None:
            s = np.array(ref['s']) / ref['s0']
            lo = int((s >= cfg['part'] * 1.01).sum())
            hi = int((s >= cfg['part'] * .99).sum())
            if not lo <= m['part'] <= hi:
                return 'part', (f'{cfg}: part({cfg["part"]}) keeps {m["part"]} '
                                f'instead of {lo} functions'), j
    return None


def world(r, i, tier, rec):
    cfg = gen_cfg(r, tier)
    answers = [gen_answer(r) 
               for _ in range(3 if cfg.get('dd') or cfg.get('lam', 0) >= 1e4 else 5)]
    st, outs = proc.run(lambda: run_case(cfg, answers), 200)
    sc = {'cfg': cfg, 'answers': answers}
    rec.n['runs'] += len(answers)
    if st == 'err':
        raised = proc.library_error(outs)
        if raised is None:
            raise RuntimeError(outs)
        rec.viol.append(('raise', f'{cfg}: {raised}', sc))
        return
    if st != 'ok':
        rec.viol.append((st, f'{cfg}: process: {st}', sc))
        return
    rec.sets['configurations'].add(json.dumps(cfg, sort_keys=True))
    for a, m in zip(answers, outs[1:]):
        for k, n in m.get('changed', {}).items():
            rec.n['fault:' + k] += n
            rec.n['steps'] += n
        rec.n['fault:random generators disturbed'] += 1
        if m.get('changed'):
            rec.case(json.dumps([cfg, a], sort_keys=True))
    worst = {}
    v = judge(cfg, answers, outs, worst)
    if WORST is not None:
        for k, x in worst.items():
            if x > WORST.get(k, (0,))[0]:
                WORST[k] = (x, cfg)
    if v:
        rec.viol.append((v[0], v[1], {'cfg': cfg, 'answers': [answers[v[2]]]}))
    elif not rec.samples:
        rec.samples.append({'cfg': cfg, 'answers': answers,
                            'largest deviations relative to tolerance': worst})


def replay(sc):
    st, outs = proc.run(lambda: run_case(sc['cfg'], sc['answers']), 300)
    if st == 'err':
        raised = proc.library_error(outs)
        if raised is None:
            raise RuntimeError(outs)
        return 'raise', f'{sc["cfg"]}: {raised}'
    if st != 'ok':
        return st, f'process: {st}'
    v = judge(sc['cfg'], sc['answers'], outs)
    return v[:2] if v else None


def shrink(sc):
    cfg = sc['cfg']
    if len(sc['answers']) > 1:
        for a in sc['answers']:
            yield dict(sc, answers=[a])
    for a in sc['answers'][:1]:
        for k in ('signs', 'noise', 'eig'):
            if a[k]:
                yield dict(sc, answers=[dict(a, **{k: False})])
    for k in ('part', 'n_sv', 'n_gauss', 'cutoff', 'strat', 'svd_strat', 'work',
              'via'):
        if cfg.get(k) is not None:
            yield dict(sc, cfg={a: b for a, b in cfg.items() if a != k})
    for lam in (1.0, 10.0, 100.0):
        if cfg.get('lam', 0) > lam:
            yield dict(sc, cfg=dict(cfg, lam=lam))
