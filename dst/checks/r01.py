"""R01: repeated transforms neither drift nor amplify noise."""
import json
import pickle
import random
import traceback
import warnings

import numpy as np
import scipy.special as sp

from .. import alloc, boot, canon, execute as E, faults, proc

PROP = 'R01'
PLAN = {'quick': (2000, 70), 'thorough': (60000, 780)}
RULE = ('A case is one simulated long-running calculation on one random basis '
        '(both kernels and statistics; plain, sliced, rescaled, paired, part of a '
        'set; pole-based; augmented, also by the user): tens of alternating '
        'evaluations and fits on a batch in random layouts along random axes, '
        'with default, custom and non-negative-only sampling points; or a walk '
        'of a propagator between all its representations; or a self-consistency '
        'loop run to convergence. Meanwhile noise and gross errors hit sampled '
        'values, calls are interrupted or fail in the back-end and are retried, '
        'are repeated, updates are lost, and the process crashes and continues '
        'from a saved state elsewhere, with loaded or rebuilt objects. Every '
        'step is compared with a reference model: matrices computed '
        'independently, exact least squares, exact propagators, exact fixed '
        'points. Non-trivial: at least three transforms were judged. Distinct: '
        'by configuration and history.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec']
STUB = ['measured values (noise, gross errors)', 'interrupts, failures of the '
        'back-end', 'crash and restart from saved state',
        'NumPy array allocator (fixed alignment)']
ASSUME = ['tolerances are at least 4 times the largest deviation seen on the '
          'unchanged tree, see DESIGN.md']
EPS = 2.3e-16
WORST = {}
# tolerance factors
TOL = {'evaluate': 400., 'fit': 400., 'drift': 400., 'value': 100., 'coef': 200.,
       'refit': 1000., 'fixed point': 40., 'loop': 100., 'cond': 10.}
UNITS = 'rb-units', ('propagators of bases with the regularised kernel are 1/wmax**2 '
                     'times the documented ones')


# ---------------------------------------------------------- user-made functions

class Outside:
    """Augmentation by the user: pole outside the interval of the basis"""
    def __init__(self, beta, pole):
        self.beta, self.pole = beta, pole

    def __call__(self, tau):
        tau = np.asarray(tau)
        x = self.pole * (tau if self.pole > 0 else tau - self.beta)
        return -np.exp(-x) / (1 + np.exp(-abs(self.beta * self.pole)))

    def hat(self, n):
        n = np.asarray(n)
        z = 1j * n * np.pi / self.beta - self.pole
        num = np.where(n % 2, 1., np.tanh(.5 * self.beta * self.pole))
        return num / z


def user_class():
    """Made a proper augmentation once the library has been imported"""
    global OutsideAug
    from sparse_ir import augment

    class OutsideAug(Outside, augment.AbstractAugmentation):
        pass
    OutsideAug.__qualname__ = 'OutsideAug'
    return OutsideAug


# -------------------------------------------------------------- reference model

class Ref:
    """Independent evaluation of the functions of a basis"""
    def __init__(self, basis, cls):
        u = basis.sve_result.u
        self.data = np.array(u.data, float)
        self.knots = np.array(u.knots, float)
        self.sfull = np.array(basis.sve_result.s, float)
        self.vdata = np.array(basis.sve_result.v.data, float)
        self.vknots = np.array(basis.sve_result.v.knots, float)
        self.L = int(basis.size)
        self.beta, self.wmax = float(basis.beta), float(basis.wmax)
        self.stat, self.cls = basis.statistics, cls
        self.cache = {}

    def leg(self, data, knots, x):
        """Piecewise polynomials from their coefficients"""
        i = np.clip(np.searchsorted(knots, x, 'right') - 1, 0, knots.size - 2)
        a, b = knots[i], knots[i + 1]
        t = ((x - a) - (b - x)) / (b - a)
        P = np.polynomial.legendre.legvander(t, data.shape[0] - 1)
        return np.einsum('xk,kxl->lx', P, data[:, i]) * np.sqrt(2 / (b - a))

    def tau(self, t):
        x = 2 * np.asarray(t, float) / self.beta - 1
        return np.sqrt(2 / self.beta) * self.leg(self.data[..., :self.L],
                                                 self.knots, x)

    def v(self, w):
        f = self.leg(self.vdata[..., :self.L], self.vknots,
                     np.asarray(w, float) / self.wmax)
        return f / np.sqrt(self.wmax)

    @property
    def s(self):
        return self.sfull[:self.L]

    def hat(self, n):
        n = np.asarray(n)
        data, kn = self.data[..., :self.L], self.knots
        dx = np.diff(kn)
        # position of the centre relative to the nearest end keeps digits
        k = np.arange(data.shape[0])
        out = np.empty((self.L, n.size), complex)
        m = np.abs(n)
        a = np.pi / 4 * m[:, None] * dx[None, :]
        j = sp.spherical_jn(k[:, None, None], a[None])
        xm = (kn[1:] + kn[:-1]) / 2
        ph = np.exp(1j * np.pi / 2 * ((m[:, None] * (xm + 1)[None]) % 4))
        w = (1j ** (k % 4))[:, None, None] * j * ph[None] \
            * np.sqrt(2 * dx)[None, None]
        out = np.einsum('kns,ksl->ln', w, data)
        out *= np.sqrt(self.beta / 2)
        return np.where(n < 0, out.conj(), out)


def poles_tau(beta, poles, tau):
    """-K for the logistic kernel"""
    w, t = np.asarray(poles, float)[:, None], np.asarray(tau, float)[None, :]
    return -np.exp(-np.abs(w) * np.where(w >= 0, t, beta - t)) \
        / (1 + np.exp(-beta * np.abs(w)))


def poles_hat(beta, poles, n, stat):
    w, n = np.asarray(poles, float)[:, None], np.asarray(n)[None, :]
    z = 1j * np.pi / beta * n - w
    num = np.ones_like(w) if stat == 'F' else np.tanh(.5 * beta * w)
    with np.errstate(all='ignore'):
        return np.where(z == 0, -.5 * beta, num / np.where(z == 0, 1, z))


def rb_tau(beta, poles, tau):
    """-K for the regularised kernel"""
    w, t = np.asarray(poles, float)[:, None], np.asarray(tau, float)[None, :]
    a = np.abs(w)
    f = np.where(a == 0, 1 / beta, a / -np.expm1(-beta * np.where(a == 0, 1, a)))
    return -f * np.exp(-a * np.where(w >= 0, t, beta - t))


def rb_hat(beta, poles, n):
    w, n = np.asarray(poles, float)[:, None], np.asarray(n)[None, :]
    z = 1j * np.pi / beta * n - w
    return np.where(z == 0, -1, w / np.where(z == 0, 1, z))


def aug_hat(name, beta, n):
    n = np.asarray(n)
    if isinstance(name, float):
        return Outside(beta, name).hat(n)
    if name == 'TauConst':
        return np.sqrt(beta) * (n == 0)
    if name == 'TauLinear':
        with np.errstate(all='ignore'):
            return np.where(n == 0, 0, np.sqrt(3 / beta) * 2 * beta
                            / (1j * np.pi * np.where(n == 0, 1, n)))
    return np.ones(n.shape, complex)


def aug_tau(name, beta, t):
    t = np.asarray(t, float)
    if isinstance(name, float):
        return Outside(beta, name)(t)
    if name == 'TauConst':
        return np.full(t.shape, 1 / np.sqrt(beta))
    if name == 'TauLinear':
        return np.sqrt(3 / beta) * (2 * t / beta - 1)
    return np.full(t.shape, np.nan)


class Env:
    """Objects of the library and the reference model for one basis"""
    def __init__(self, cfg, ref=None):
        self.cfg = cfg
        self.objs = {}
        self.ref = ref
        self.mats = {}

    def __getstate__(self):
        d = dict(self.__dict__)
        d['mats'] = {}
        return d

    def get(self, t):
        """Object by recipe (nested list of plain data)"""
        key = json.dumps(t)
        if key not in self.objs:
            self.objs[key] = self.make(t)
        return self.objs[key]

    def make(self, t):
        import sparse_ir
        from sparse_ir import augment, dlr
        k = t[0]
        if k == 'ir':
            return make_basis(self.cfg)
        if k == 'dlr':
            b = self.get(['ir'])
            if t[1] is None:
                return dlr.DiscreteLehmannRepresentation(b)
            return dlr.DiscreteLehmannRepresentation(b, np.array(t[1]))
        if k == 'aug':
            b = self.get(['ir'])
            augs = []
            for nm in t[1]:
                if isinstance(nm, float):
                    augs.append(OutsideAug(b.beta, nm))
                else:
                    c = getattr(augment, nm)
                    augs.append(c if t[2] else c(b.beta))
            return augment.AugmentedBasis(b, *augs)
        if k == 'smp':
            _, target, kind, pts = t
            if target == ['ir'] and pts is None and self.cfg['how'] == 'set' \
                    and kind != 'pos':
                s = make_set(self.cfg)
                return getattr(s, f'smpl_{"tau" if kind == "tau" else "wn"}_'
                               + self.cfg['stat'].lower())
            b = self.get(target)
            kw = {} if pts is None else {'sampling_points': as_given(pts)}
            if kind == 'tau':
                return sparse_ir.TauSampling(b, **kw)
            return sparse_ir.MatsubaraSampling(b, positive_only=kind == 'pos', **kw)
        raise ValueError(k)

    def size(self, target):
        if target[0] == 'ir':
            return self.ref.L
        if target[0] == 'dlr':
            return int(self.get(target).size)
        return self.ref.L + len(target[1])

    def matrix(self, target, kind, pts):
        """Evaluation matrix according to the reference model"""
        pts = np.asarray(pts)
        key = json.dumps([target, kind != 'tau']), pts.tobytes(), str(pts.dtype)
        if key in self.mats:
            return self.mats[key]
        r = self.ref
        if target[0] == 'dlr':
            p = self.get(target).sampling_points if target[1] is None else target[1]
            A = poles_tau(r.beta, p, pts) if kind == 'tau' else \
                poles_hat(r.beta, p, pts, r.stat)
        else:
            A = r.tau(pts) if kind == 'tau' else r.hat(pts)
            if target[0] == 'aug':
                f = aug_tau if kind == 'tau' else aug_hat
                A = np.concatenate([[f(n, r.beta, pts) for n in target[1]], A])
        self.mats[key] = A.T
        return self.mats[key]


def as_given(pts):
    """The way the user hands over points"""
    a = np.array(pts['x'])
    return {'list': list(a), 'tuple': tuple(a.tolist()), 'array': a,
            'strided': np.repeat(a, 2)[::2]}[pts['as']]


def make_kernel(cfg):
    from sparse_ir import kernel
    lam = cfg['beta'] * cfg['wmax']
    return kernel.RegularizedBoseKernel(lam) if cfg['cls'] == 'B' else None


def make_set(cfg):
    import sparse_ir
    return sparse_ir.FiniteTempBasisSet(cfg['beta'], cfg['wmax'], cfg['eps'])


def make_basis(cfg):
    import sparse_ir
    how, be, wm, eps, st = (cfg[k] for k in ('how', 'beta', 'wmax', 'eps', 'stat'))
    F = sparse_ir.FiniteTempBasis
    kw = {'kernel': make_kernel(cfg)}
    if how == 'pair':
        return sparse_ir.finite_temp_bases(be, wm, eps)[st == 'B']
    if how == 'set':
        s = make_set(cfg)
        return s.basis_b if st == 'B' else s.basis_f
    if how == 'slice':
        b = F(st, be, wm, eps, **kw)
        return b[:max(1, int(b.size * cfg['part']))]
    if how == 'max_size':
        return F(st, be, wm, eps, max_size=cfg['max_size'], **kw)
    if how == 'rescale':
        b = F(st, be * cfg['part'], wm / cfg['part'], eps, **kw)
        return b.rescale(be)
    if how == 'shared':
        sv = F(st, be * 2, wm / 2, eps, **kw).sve_result
        return F(st, be, wm, eps, sve_result=sv, **kw)
    return F(st, be, wm, eps, **kw)


# ------------------------------------------------------------------ generation

def gen_cfg(r, tier):
    cls = 'B' if r.random() < .2 else 'L'
    stat = 'B' if cls == 'B' else r.choice('FB')
    lam = r.choice([.05, .5, 1., 2.5, 10., 14., 42., 100., 300., 1000.]) \
        if r.random() < .5 else 10 ** r.uniform(-1.5, 3)
    if tier == 'thorough' and r.random() < .1:
        lam *= 30
    beta = r.choice([1., 2., 10.]) if r.random() < .4 else 10 ** r.uniform(-1, 2)
    if r.random() < .16 and lam < 200:
        eps = r.choice([None, 1e-9, 1e-12, 1e-15])
    else:
        eps = 10 ** -r.uniform(.7, 7.7)
    cfg = {'cls': cls, 'stat': stat, 'beta': beta, 'wmax': lam / beta, 'eps': eps,
           'how': r.choice(['plain'] * 4 + ['slice', 'rescale', 'shared', 'max_size']
                           + (['pair', 'set'] if cls == 'L' else [])),
           'part': r.uniform(.3, 1), 'max_size': r.randint(1, 30)}
    return cfg


def gen_target(r, env, allow=('ir', 'dlr', 'aug')):
    cfg = env.cfg
    k = r.choice(['ir', 'ir', 'dlr', 'aug'])
    if k not in allow or (k == 'dlr' and cfg['cls'] != 'L'):
        k = 'ir'
    if k == 'ir':
        return ['ir']
    w = env.ref.wmax
    if k == 'dlr':
        if r.random() < .5:
            return ['dlr', None]
        n = r.randint(1, max(1, min(6, env.ref.L)))
        if r.random() < .3:
            # more poles than functions
            n = env.ref.L + r.randint(0, 8)
        p = [r.choice([0., w, -w, r.uniform(-w, w), r.uniform(-w, w),
                       r.uniform(-w, w)]) for _ in range(n)]
        return ['dlr', sorted(set(p))]
    c = [['MatsubaraConst'], [r.choice([-1, 1]) * w * r.uniform(1.5, 4)]]
    if cfg['stat'] == 'B':
        c += [['TauConst'], ['TauConst', 'TauLinear'], ['TauLinear'],
              ['MatsubaraConst', 'TauConst']]
    return ['aug', r.choice(c), r.randint(0, 1)]


def gen_points(r, env, target, kind):
    """Custom sampling points"""
    L = env.size(target)
    if kind == 'tau':
        base = r0_tau(env, target)
        b = env.ref.beta
        extra = [r.choice([r.uniform(0, b), r.uniform(0, b), 0., b, b / 2])
                 for _ in range(r.randint(0, L + 2))]
    else:
        base = r0_mats(env, target, kind)
        z = 1 if env.ref.stat == 'F' else 0
        top = 3 * max(abs(base).max(), 3) if base.size else 9
        extra = [2 * int(r.choice([r.uniform(-3, 3), r.uniform(-top, top) / 2,
                                   0])) + z for _ in range(r.randint(0, L + 2))]
        eps = env.cfg['eps']
        if (eps is None or eps < 1e-8) and r.random() < .8:
            # around the point where the library uses the asymptotic form (which
            # inherits the error of derivatives with singular functions from
            # double precision)
            n0 = 40 * max(env.cfg['beta'] * env.cfg['wmax'], 10)
            extra += [2 * int(r.choice([-.5, .5]) * r.choice(
                [n0, n0 + 2, n0 * r.uniform(.95, 1.5), n0 * 10 ** r.uniform(0, 3)])
            ) + z for _ in range(r.randint(1, 3))]
        if kind == 'pos':
            extra = [abs(e) for e in extra]
    m = r.random()
    base = base.tolist()
    if m < .5:
        x = base + extra
    elif m < .7 and base:
        # nearly the default points
        x = list(base)
        d = 10 ** -r.uniform(3, 9)
        some = range(len(x)) if r.random() < .6 else [r.randrange(len(x))]
        for i in some:
            if kind == 'tau':
                x[i] += r.choice([-d, d]) * min(x[i], b - x[i])
            elif abs(x[i]) > 8:
                y = x[i] + r.choice([-2, 2])
                x[i] = x[i] if y in x else y
        if r.random() < .7:
            return {'x': x, 'as': r.choice(['list', 'array', 'tuple', 'strided'])}
    elif m < .85:
        x = r.sample(base, max(1, int(len(base) * r.uniform(.3, 1))))
    else:
        x = base + base[:r.randint(0, len(base))]
    if r.random() < .6:
        r.shuffle(x)
    return {'x': x, 'as': r.choice(['list', 'array', 'tuple', 'strided'])}


def r0_tau(env, target):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.array(env.get(target).default_tau_sampling_points())


def r0_mats(env, target, kind):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.array(env.get(target).default_matsubara_sampling_points(
            positive_only=kind == 'pos'))


def gen_sampler(r, env, target, real):
    kinds = ['tau', 'mats'] + (['pos'] * 2 if real else [])
    if target[0] == 'aug' and 'MatsubaraConst' in target[1]:
        kinds = kinds[1:]
    kind = r.choice(kinds)
    x = r.random()
    if x < .6:
        return ['smp', target, kind, None], None
    pts = gen_points(r, env, target, kind)
    if x < .8:
        return ['smp', target, kind, pts], None
    return ['smp', target, kind, None], pts


def gen_fault(r):
    return {'kind': r.choice(['kbd', 'mem', 'backend']), 'at': r.choice(
        [1, 1, 2, 3, 4, 5, 6, 8, 10, 15, 25, 60]),
        'exc': r.choice(['LinAlgError', 'ValueError'])}


def gen_noise(r):
    return {'k': r.choice(['gauss', 'gauss', 'outlier', 'single', 'const']),
            'size': 10 ** -r.uniform(0, 14), 'seed': r.randrange(1 << 30)}


def gen_marks(r, n):
    """Moments of saving and of crashes"""
    out = {}
    if r.random() < .35:
        for _ in range(r.randint(1, 2)):
            c = r.randrange(n)
            out[c] = {'k': 'crash', 'how': r.choice(['load', 'load', 'rebuild'])}
            if c and r.random() < .8:
                out.setdefault(r.randrange(c), {'k': 'save'})
    return out


def gen_layout(r, nb):
    return {'axis': r.randint(0, nb), 'neg': r.randint(0, 1),
            'order': r.choice(['C', 'F', 'strided', 'readonly', 'reversed']),
            'none': r.randint(0, 1)}


def gen_chain(r, env):
    real = r.random() < .6
    target = gen_target(r, env)
    batch = r.choice([[], [], [1], [3], [2, 3], [0], [2, 1, 2]])
    if r.random() < .06:
        batch = r.choice([[120], [700], [29, 31]])
    few = [gen_sampler(r, env, target, real) for _ in range(r.randint(1, 3))]
    n = r.choice([3, 6, 12, 30])
    marks = gen_marks(r, n)
    steps = []
    for i in range(n):
        smp, pts = r.choice(few)
        s = {'smp': smp, 'pts': pts, 'lay': gen_layout(r, len(batch)),
             'lay2': gen_layout(r, len(batch))}
        if r.random() < .35:
            s['noise'] = gen_noise(r)
        if r.random() < .2:
            s['fault'] = gen_fault(r)
            s['fault']['on'] = r.choice(['evaluate', 'fit'])
        if r.random() < .15:
            s['twice'] = 1
        if i in marks:
            s['mark'] = marks[i]
        steps.append(s)
    h = {'type': 'chain', 'target': target, 'batch': batch, 'real': int(real),
         'decay': r.randint(0, 1), 'seed': r.randrange(1 << 30), 'steps': steps}
    if r.random() < .3:
        # exponents: one for all, or each column its own
        h['scale'] = r.choice([[-17], [-100], [-40], [20], [-20, 20], [-60, 0]])
    if not real and r.random() < .3:
        h['imag'] = r.choice([-16, -13, -8, 3])
    return h


def gen_walk(r, env):
    w = env.ref.wmax
    npol = r.randint(1, 4)
    poles = [r.choice([0., w, -w] + [r.uniform(-w, w)] * 6) for _ in range(npol)]
    batch = r.choice([[], [2], [3, 1]])
    n = r.choice([3, 6, 12])
    marks = gen_marks(r, n)
    steps = []
    for i in range(n):
        target = gen_target(r, env)
        smp, pts = gen_sampler(r, env, target, True)
        s = {'target': target, 'smp': smp, 'pts': pts,
             'lay': gen_layout(r, len(batch)), 'lay2': gen_layout(r, len(batch)),
             'back': r.choice(['fit', 'fit', 'to_IR'])}
        if target[0] == 'aug':
            s['a'] = [r.uniform(-1, 1) for _ in target[1]]
        if r.random() < .25:
            s['noise'] = gen_noise(r)
        if r.random() < .2:
            s['fault'] = gen_fault(r)
            s['fault']['on'] = r.choice(['evaluate', 'fit'])
        if i in marks:
            s['mark'] = marks[i]
        steps.append(s)
    return {'type': 'walk', 'poles': poles, 'batch': batch,
            'seed': r.randrange(1 << 30), 'steps': steps}


def gen_loop(r, env):
    cfg = env.cfg
    be, w = env.ref.beta, env.ref.wmax
    if cfg['stat'] == 'F':
        model = r.choice(['bethe', 'gf2'])
    else:
        model = 'rpa'
    h = {'type': 'loop', 'model': model}
    if model == 'bethe':
        t = min(.45 * w, 6 / be) * r.uniform(.3, 1)
        h.update(t=t, e0=r.uniform(-1, 1) * (w - 2 * t))
        n = 160
    elif model == 'rpa':
        w0 = r.uniform(.2, .6) * w
        a = r.uniform(.2, 1) * w
        u = r.choice([-1, 1]) * r.uniform(.1, .6) * w0 / (2 * a)
        h.update(w0=w0, a=a, u=u)
        n = 120
    else:
        h.update(e0=r.uniform(-.5, .5) * w, u=r.uniform(.3, 1.5) / be)
        n = 100
    few = []
    for _ in range(r.randint(1, 3)):
        kind = r.choice(['mats', 'pos', 'pos'])
        pts = None
        if r.random() < .4 and model != 'gf2':
            pts = gen_points(r, env, ['ir'], kind)
            base = r0_mats(env, ['ir'], kind).tolist()
            pts['x'] = pts['x'] + [b for b in base if b not in pts['x']]
        few.append(['smp', ['ir'], kind, pts])
    marks = {}
    for k in range(r.randint(0, 2)):
        c = r.randrange(n // 3)
        marks[c] = {'k': 'crash', 'how': r.choice(['load', 'load', 'rebuild'])}
        if c:
            marks.setdefault(r.randrange(c), {'k': 'save'})
    steps = []
    for i in range(n):
        s = {'smp': r.randrange(len(few)), 'via': int(r.random() < .3)}
        if i < n // 3:
            x = r.random()
            if x < .06:
                s['fault'] = gen_fault(r)
                s['fault']['on'] = r.choice(['evaluate', 'fit'])
            elif x < .1:
                s['lost'] = 1
            elif x < .14:
                s['noise'] = gen_noise(r)
                s['noise']['size'] = 10 ** -r.uniform(1, 10)
            elif x < .18:
                s['twice'] = 1
        if i in marks:
            s['mark'] = marks[i]
        steps.append(s)
    h.update(samplers=few, steps=steps, seed=r.randrange(1 << 30))
    return h


# ------------------------------------------------------------------- execution

class Bad(Exception):
    def __init__(self, key, text):
        self.key, self.text = key, text


class Crashed(Exception):
    """The simulated process dies"""


def lay_out(x, lay, real):
    """Arrange (L, batch...) as the user would; returns array and axis argument"""
    nb = x.ndim - 1
    ax = min(lay['axis'], nb)
    y = np.moveaxis(x, 0, ax)
    o = lay['order']
    if o == 'F':
        y = np.asfortranarray(y)
    elif o == 'strided':
        z = np.full(tuple(2 * d for d in y.shape), 777., y.dtype)
        z = z[tuple(slice(None, None, 2) for _ in y.shape)]
        z[...] = y
        y = z
    elif o == 'reversed':
        y = np.ascontiguousarray(y[..., ::-1])[..., ::-1]
    else:
        y = np.ascontiguousarray(y)
        if o == 'readonly':
            y.flags.writeable = False
    if lay['none'] and (nb == 0 or ax == nb - 1):
        return y, None, ax
    return y, (ax - y.ndim if lay['neg'] else ax), ax


class Sim:
    """Everything that happens in one simulated process"""
    def __init__(self, env, h, stop_at_crash=True):
        self.env, self.h = env, h
        self.n = {}
        self.worst = {}
        self.dev = []

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def judge(self, kind, dev, tol, what):
        """dev: deviation, tol: natural size of rounding or truncation"""
        dev = float(np.max(dev)) if np.size(dev) else 0.
        self.count('judged')
        if not np.isfinite(tol):
            return
        q = dev / (tol + 1e-300)
        if kind not in self.worst or q > self.worst[kind][0]:
            self.worst[kind] = (q, what)
        if not q <= TOL[kind]:
            raise Bad(kind, f'{what}: deviation {dev:.3g}, allowed '
                      f'{TOL[kind] * tol:.3g}')

    def call(self, name, fn, args, fault, twice, **kw):
        """One call, perhaps interrupted and repeated"""
        keep = [(a, a.tobytes(), a.strides) for a in args if isinstance(a, np.ndarray)]
        out = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if fault and fault['on'] == name:
                try:
                    with faults.inject(fault) as fired:
                        out = fn(*args, **kw)
                    self.count('not reached')
                except (faults.Interrupt, MemoryError, np.linalg.LinAlgError,
                        ValueError) as e:
                    if fired.at is None:
                        raise Bad('raise', f'{name}: {type(e).__name__}: '
                                  + canon.message(e))
                    self.count('fault:' + {'kbd': 'interrupted call',
                                           'mem': 'MemoryError in a call',
                                           'backend': 'failing back-end'}[fault['kind']])
            if twice or out is None:
                first = out
                try:
                    out = fn(*args, **kw)
                except Exception as e:                  # noqa: B902
                    raise Bad('raise', f'{name}: {type(e).__name__}: '
                              + canon.message(e))
                if twice:
                    self.count('fault:repeated call')
                    again = fn(*args, **kw)
                    if not np.array_equal(out, again, equal_nan=True):
                        raise Bad('repeat', f'{name}: repeated call gives something '
                                  'else')
        for a, b, st in keep:
            if a.tobytes() != b or a.strides != st:
                raise Bad('argument', f'{name}: argument modified')
        self.count(name)
        return np.asarray(out)

    def sampler(self, smp, pts):
        """Sampler, points of the values (as the user knows them), keywords"""
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s = self.env.get(smp)
        kw = {}
        x = s.sampling_points
        if pts is not None:
            kw['points'] = as_given(pts)
            x = np.array(pts['x'])
        self.count({'tau': 'imaginary time', 'mats': 'frequency',
                    'pos': 'non-negative frequency'}[smp[2]])
        if pts is not None or smp[3] is not None:
            self.count('custom points')
        return s, np.array(x), kw

    def noise(self, spec, v):
        r = np.random.RandomState(spec['seed'])
        m = np.abs(v).max() if v.size else 0
        z = r.normal(size=v.shape)
        if np.iscomplexobj(v):
            z = z + 1j * r.normal(size=v.shape)
        if spec['k'] == 'outlier':
            z = z * (r.uniform(size=v.shape) < .1)
        elif spec['k'] == 'single' and v.size:
            f = np.zeros(v.size)
            f[r.randint(v.size)] = 1
            z = z * f.reshape(v.shape)
        elif spec['k'] == 'const':
            z = z * 0 + 1
        self.count('fault:' + {'gauss': 'noise', 'outlier': 'gross errors',
                               'single': 'one gross error',
                               'const': 'systematic error'}[spec['k']])
        return z * (spec['size'] * m)


def solve(A, b, split):
    """Least squares of smallest norm, real unknowns if ``split``"""
    if split:
        A = np.vstack([A.real, A.imag])
        b = np.vstack([b.real, b.imag])
    u, s, vh = np.linalg.svd(A, full_matrices=False)
    keep = s > 0
    u, s, vh = u[:, keep], s[keep], vh[keep]
    return vh.conj().T @ ((u.conj().T @ b) / s[:, None]), s, A


def rows(A, split):
    return np.vstack([A.real, A.imag]) if split else A


# chain: any coefficients, exact linear algebra

def chain_start(sim):
    h = sim.h
    n = sim.env.size(h['target'])
    r = np.random.RandomState(h['seed'])
    B = int(np.prod(h['batch'], dtype=int))
    x = r.normal(size=(n, B))
    if not h['real']:
        x = x + 1j * r.normal(size=(n, B)) * 10. ** h.get('imag', 0)
    if h.get('scale'):
        lo, hi = h['scale'][0], h['scale'][-1]
        x = x * 10. ** r.randint(lo, hi + 1, size=B)
    if h['decay'] and h['target'][0] == 'ir':
        x = x * (sim.env.ref.s / sim.env.ref.s[0])[:, None]
    return {'x': x, 'ref': x.copy(), 'tol': 0.}


def roundtrip(sim, st, s, real, target, what):
    """evaluate, spoil, fit; returns coefficients and what was expected"""
    env, h = sim.env, sim.h
    x = st['x']
    smp, pts_spec = s['smp'], s['pts']
    smpl, pts, kw = sim.sampler(smp, pts_spec)
    kind = smp[2]
    A = env.matrix(target, kind, pts)
    y, axis, ax = lay_out(x.reshape((x.shape[0],) + tuple(h['batch'])), s['lay'], real)
    v = sim.call('evaluate', smpl.evaluate, (y, axis), s.get('fault'),
                 s.get('twice'), **kw)
    if v.shape != y.shape[:ax] + (pts.size,) + y.shape[ax + 1:]:
        raise Bad('shape', f'{what}: values have shape {v.shape}')
    v = np.moveaxis(v, ax, 0).reshape(pts.size, -1)
    scale = np.abs(A).max() * np.abs(x).sum(axis=0) if x.size else np.zeros(0)
    # times are rounded, and functions vary on the scale of 1/cutoff
    lam = env.ref.beta * env.ref.wmax * (1 if kind == 'tau' else .25)
    with np.errstate(all='ignore'):
        sim.judge('evaluate', np.nan_to_num(np.abs(v - A @ x) / (scale + 1e-290),
                                            nan=np.inf), EPS * (1 + lam / 5),
                  what + ', evaluate')
    w = v
    if s.get('noise'):
        w = v + sim.noise(s['noise'], v)
    y, axis, ax = lay_out(w.reshape((pts.size,) + tuple(h['batch'])), s['lay2'], real)
    c = sim.call('fit', smpl.fit, (y, axis), s.get('fault'), s.get('twice'), **kw)
    if c.shape != y.shape[:ax] + (x.shape[0],) + y.shape[ax + 1:]:
        raise Bad('shape', f'{what}: coefficients have shape {c.shape}')
    c = np.moveaxis(c, ax, 0).reshape(x.shape[0], -1)
    if kind == 'pos' and np.iscomplexobj(c):
        raise Bad('type', f'{what}: complex coefficients from positive_only')
    return A, v, w, c, pts


def chain_step(sim, st, i):
    h, s = sim.h, sim.h['steps'][i]
    target, real = h['target'], h['real']
    kind = s['smp'][2]
    what = f'step {i} ({"/".join(map(str, target))}, {kind})'
    split = kind == 'pos'
    x = st['x']
    A, v, w, c, pts = roundtrip(sim, st, s, real, target, what)
    if x.size == 0:
        return
    e, sv, M = solve(A, A @ x + (w - v), split)
    if not sv.size:
        # all functions vanish on these points
        st['x'] = st['ref'] = c
        return
    cond = sv[0] / sv[-1]
    if sv.size < min(M.shape):
        # some function vanishes on all points: whether its coefficient comes out
        # as zero or arbitrary depends on rounding
        cond = max(cond, 1e18)
    norm = np.linalg.norm
    res = norm(rows(w, split) - M @ e, axis=0)
    ne = norm(e, axis=0)
    lam = sim.env.ref.beta * sim.env.ref.wmax
    if s['pts'] is None and s['smp'][3] is None and target == ['ir'] \
            and (sim.env.ref.cls == 'L' or precision(sim.env) < 3e-3):
        sim.judge('cond', cond if M.shape[0] >= M.shape[1] else np.inf,
                  2 + np.sqrt(lam), what + ', condition number')
        if not M.shape[0] < M.shape[1]:
            sim.count('default points')
    if real:
        c, e = c.real, e.real
    if cond < 1e9:
        tol = EPS * (cond * (norm(x, axis=0) + ne + norm(w, axis=0) / sv[0])
                     + cond ** 2 * res / sv[0])
        tol = tol * (1 + lam * (.2 if kind == 'tau' else .05))
        dev = norm(c - e, axis=0)
        sim.judge('fit', np.nan_to_num(dev / (tol + 1e-290), nan=np.inf), 1.,
                  what + ', fit')
        e2, _, _ = solve(A, A @ st['ref'] + (w - v), split)
        if real:
            e2 = e2.real
        st['tol'] = st['tol'] * (1 + 1e-9) + tol
        sim.judge('drift', np.nan_to_num(norm(c - e2, axis=0)
                                         / (st['tol'] + 1e-290), nan=np.inf), 1.,
                  what + ', accumulated')
        st['ref'] = e2
    else:
        # values must be reproduced as well as any coefficients can
        d = norm(M @ c - M @ e, axis=0)
        tol = EPS * sv[0] * (norm(x, axis=0) + norm(c, axis=0) + norm(e, axis=0)) \
            * (1 + EPS * cond) + EPS * res * min(cond, 1e8)
        sim.judge('refit', np.nan_to_num(d / (tol + 1e-290), nan=np.inf), 1.,
                  what + ', refit')
        st['ref'] = c
        st['tol'] = 0.
    st['x'] = c


# walk: a propagator in all its representations

def exact(env, poles, kind, pts):
    """(points, poles): values of each pole"""
    r = env.ref
    if r.cls == 'B':
        A = rb_tau(r.beta, poles, pts) if kind == 'tau' else \
            rb_hat(r.beta, poles, pts)
    else:
        A = poles_tau(r.beta, poles, pts) if kind == 'tau' else \
            poles_hat(r.beta, poles, pts, r.stat)
    return A.T


def precision(env):
    """Relative accuracy to which the basis can represent a propagator"""
    r = env.ref
    s = r.sfull
    nxt = s[r.L] / s[0] if r.L < s.size else s[-1] / s[0]
    eps = env.cfg['eps']
    acc = nxt
    if eps is not None and r.L >= s.size:
        acc = max(acc, eps)
    base = 1e-9 if eps is not None and eps > 1.4e-8 else 4e-16
    return max(acc, base)


def sizes(env, kind):
    """Natural size of values"""
    r = env.ref
    z = 1. if r.cls == 'L' else r.wmax + 1 / r.beta
    return z if kind == 'tau' else z * r.beta


def walk_start(sim):
    env, h = sim.env, sim.h
    r = np.random.RandomState(h['seed'])
    B = int(np.prod(h['batch'], dtype=int))
    c = r.uniform(-1, 1, size=(len(h['poles']), B))
    b = env.get(['ir'])
    v = np.asarray(b.v(np.array(h['poles'])))
    x = -(b.s[:, None] * v) @ c
    if env.ref.cls == 'B':
        # units: see known findings
        f = scale_of(sim, x, c)
        c = c * f
    size = np.abs(c).sum(axis=0)
    return {'x': x, 'c': c, 'size': size, 'delta': np.zeros(B), 'x0': x.copy()}


def scale_of(sim, x, c):
    """Factor between documented propagator and the one of the basis"""
    env, h = sim.env, sim.h
    be, w = env.ref.beta, env.ref.wmax
    t = np.linspace(0, be, 9)
    ex = exact(env, h['poles'], 'tau', t) @ c
    got = env.ref.tau(t).T @ x
    d1 = np.abs(got - ex).max()
    d2 = np.abs(got - ex / w ** 2).max()
    if abs(w - 1) > 1e-6 and d2 * w ** 2 < d1:
        sim.count('units differ')
        return 1 / w ** 2
    return 1.


def walk_step(sim, st, i):
    env, h, s = sim.env, sim.h, sim.h['steps'][i]
    target = s['target']
    kind = s['smp'][2]
    what = f'step {i} ({"/".join(map(str, target))}, {kind})'
    x, c = st['x'], st['c']
    acc = precision(env)
    k = target[0]
    batch = tuple(h['batch'])
    norm = np.linalg.norm
    L = env.ref.L
    # current coefficients in the representation of this step
    if k == 'ir':
        y = x
    elif k == 'aug':
        a = np.array(s['a'])[:, None] * np.ones(x.shape[1])
        y = np.concatenate([a, x])
    else:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d = env.get(target)
        z, axis, ax = lay_out(x.reshape((L,) + batch), s['lay'], True)
        g = sim.call('from_IR', d.from_IR, (z, ax), None, 0)
        g = np.moveaxis(g, ax, 0).reshape(d.size, -1)
        F = np.asarray(d.matrix.a)
        if target[1] is not None:
            # poles of the user cannot represent everything: go on from there
            st2 = -(env.get(['ir']).s[:, None]
                    * np.asarray(env.get(['ir']).v(np.array(target[1]))))
            sim.judge('evaluate', np.abs(F - st2).max(axis=1)
                      / (np.abs(st2).max(axis=1) + 1e-290), EPS, what + ', matrix')
            e, sv, _ = solve(F, x, False)
            if sv.size:
                cond = sv[0] / sv[-1]
                res = norm(x - F @ e, axis=0)
                tol = EPS * (sv[0] * (norm(g, axis=0) + norm(e, axis=0))
                             + norm(x, axis=0)) * (1 + EPS * cond) \
                    + EPS * res * min(cond, 1e8)
                sim.judge('refit', np.nan_to_num(
                    norm(F @ (g - e), axis=0) / (tol + 1e-290), nan=np.inf), 1.,
                    what + ', from_IR')
                sim.count('poles by the user')
                if d.size > L:
                    sim.count('more poles than functions')
            return
        y = g
        fwd = np.abs(g).sum(axis=0)
        back = sim.call('to_IR', d.to_IR, (g.reshape((d.size,) + batch), 0), None, 0)
        back = back.reshape(L, -1)
        sv = np.abs(F).max() * np.sqrt(d.size)
        if d.size >= L:
            # the equations can be solved
            sim.judge('refit', norm(back - x, axis=0) / (
                EPS * (sv * norm(g, axis=0) + norm(x, axis=0)) + 1e-290), 1.,
                what + ', to_IR')
    st2 = {'x': y}
    A, v, w, got, pts = roundtrip(sim, st2, s, True, target, what)
    ex = exact(env, h['poles'], kind, pts) @ c
    if k == 'aug':
        ex = ex + env.matrix(target, kind, pts)[:, :len(s['a'])] @ a
    R = env.matrix(['ir'], kind, pts)
    row = np.sqrt((np.abs(R) ** 2).sum(axis=1).max())
    tol = acc * sizes(env, kind) * st['size'] + row * st['delta'] \
        + EPS * np.abs(A).max() * np.abs(y).sum(axis=0)
    if k == 'dlr':
        tol = tol + acc * sizes(env, kind) * fwd
    sim.judge('value', np.nan_to_num(np.abs(v - ex).max(axis=0) / tol, nan=np.inf),
              1., what + ', exact propagator')
    # back to coefficients
    if k == 'dlr':
        if s['back'] == 'to_IR':
            st['x'] = back
        return
    split = kind == 'pos'
    M = rows(A, split)
    sv = np.linalg.svd(M, compute_uv=False)
    cond = sv[0] / sv[-1]
    if M.shape[0] < M.shape[1] or cond > 1e6:
        return
    got = got.real
    noise = norm(rows(w - v, split), axis=0)
    size = norm(y, axis=0)
    d = noise / sv[-1] + EPS * cond * (size + norm(w, axis=0) / sv[0]) \
        + EPS * cond ** 2 * noise / sv[0]
    sim.judge('coef', np.nan_to_num(norm(got - y, axis=0) / (d + 1e-290), nan=np.inf),
              1., what + ', coefficients')
    st['x'] = got[-L:]
    st['delta'] = st['delta'] + d


# loop: self-consistency

def loop_start(sim):
    L = sim.env.ref.L
    return {'x': np.zeros(L), 'k': 0}


def loop_map(sim, h, g, iv):
    """One update of the values on frequencies"""
    if h['model'] == 'bethe':
        return 1 / (iv - h['e0'] - h['t'] ** 2 * g)
    d0 = -2 * h['a'] * h['w0'] / ((iv * -1j).real ** 2 + h['w0'] ** 2)
    return d0 + d0 * h['u'] * g


def loop_step(sim, st, i):
    env, h, s = sim.env, sim.h, sim.h['steps'][i]
    smp = h['samplers'][s['smp']]
    kind = smp[2]
    x = st['x']
    pts = smp[3] if s['via'] and smp[3] else None
    smpl, p, kw = sim.sampler(smp[:3] + [None] if pts else smp, pts)
    iv = 1j * np.pi / env.ref.beta * p
    f, tw = s.get('fault'), s.get('twice')
    if h['model'] == 'gf2':
        ts, tp, _ = sim.sampler(['smp', ['ir'], 'tau', None], None)
        gt = sim.call('evaluate', ts.evaluate, (x,), f, tw)
        gb = sim.call('evaluate', ts.evaluate, (x,), None, 0,
                      points=env.ref.beta - tp)
        sig = h['u'] ** 2 * gt * gt * -gb
        sl = sim.call('fit', ts.fit, (sig,), None, 0)
        sv = sim.call('evaluate', smpl.evaluate, (sl,), None, 0, **kw)
        new = 1 / (iv - h['e0'] - sv)
    else:
        g = sim.call('evaluate', smpl.evaluate, (x,), f, tw, **kw)
        new = loop_map(sim, h, g, iv)
    if s.get('noise'):
        new = new + sim.noise(s['noise'], new)
    y = sim.call('fit', smpl.fit, (new,), f, tw, **kw).real
    if s.get('lost'):
        sim.count('fault:lost update')
        return
    if h['model'] == 'gf2':
        y = .5 * y + .5 * x
    st['x'] = y


def loop_end(sim, st):
    env, h = sim.env, sim.h
    be = env.ref.beta
    x = st['x']
    acc = precision(env)
    r = np.random.RandomState(h['seed'])
    z = 1 if env.ref.stat == 'F' else 0
    lam = be * env.ref.wmax
    n = np.unique(2 * r.randint(-int(lam) - 4, int(lam) + 4, size=12) + z)
    t = r.uniform(0, be, size=9)
    amp = 1.
    if h['model'] == 'bethe':
        zz = 1j * np.pi / be * n - h['e0']
        q = np.sqrt(zz * zz - 4 * h['t'] ** 2)
        gw = 2 / np.where(np.abs(zz + q) > np.abs(zz - q), zz + q, zz - q)
        m = 400
        th = np.pi * np.arange(1, m + 1) / (m + 1)
        wt = 2 / (m + 1) * np.sin(th) ** 2
        gt = wt @ poles_tau(be, h['e0'] + 2 * h['t'] * np.cos(th), t)
        zz = 1j * np.pi / be - h['e0']
        q = np.sqrt(zz * zz - 4 * h['t'] ** 2)
        g0 = 2 / max(zz + q, zz - q, key=abs)
        amp = 1 / (1 - min(.999, abs(h['t'] * g0) ** 2))
        size = 1.
    elif h['model'] == 'rpa':
        w1 = np.sqrt(h['w0'] ** 2 + 2 * h['a'] * h['w0'] * h['u'])
        a1 = h['a'] * h['w0'] / w1
        nu = np.pi / be * n
        gw = -2 * h['a'] * h['w0'] / (nu ** 2 + w1 ** 2)
        # a [1/(iv - w) - 1/(iv + w)] in imaginary time
        with np.errstate(all='ignore'):
            gt = -a1 * (np.exp(-w1 * t) + np.exp(-w1 * (be - t))) \
                / -np.expm1(-be * w1)
        amp = 1 / (1 - min(.999, abs(h['u']) * 2 * h['a'] / h['w0']))
        size = max(np.abs(gt).max(), a1 * (1 + 1 / (be * w1)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sm = env.get(['smp', ['ir'], 'mats', None])
        ts = env.get(['smp', ['ir'], 'tau', None])
    if h['model'] == 'gf2':
        ref = gf2_reference(sim)
        sv = []
        for smp in h['samplers']:
            kind = smp[2]
            _, p, _ = sim.sampler(smp, None)
            A = rows(env.matrix(['ir'], kind, p), kind == 'pos')
            sv.append(np.linalg.cond(A))
        tp = env.get(['smp', ['ir'], 'tau', None]).sampling_points
        cond = max(sv) * np.linalg.cond(env.matrix(['ir'], 'tau', tp))
        tol = EPS * cond * np.linalg.norm(ref)
        # bases of low accuracy answer differently from different points
        if len(h['samplers']) > 1:
            tol += acc * np.linalg.norm(ref)
        sim.judge('loop', np.linalg.norm(x - ref), tol, 'fixed point (second order)')
        return
    vw = sim.call('evaluate', sm.evaluate, (x,), None, 0, points=n)
    vt = sim.call('evaluate', ts.evaluate, (x,), None, 0, points=t)
    # the update is exact only where the basis is: condition numbers enter
    cond = 1.
    for smp in h['samplers']:
        _, p, _ = sim.sampler(smp, None)
        cond = max(cond, np.linalg.cond(rows(env.matrix(['ir'], smp[2], p),
                                             smp[2] == 'pos')))
    tol = acc * size * cond * amp
    sim.judge('fixed point', np.nan_to_num(np.abs(vw - gw), nan=np.inf), tol * be,
              f'fixed point ({h["model"]}), frequency')
    sim.judge('fixed point', np.nan_to_num(np.abs(vt - gt), nan=np.inf), tol
              * (1 + np.sqrt(lam)), f'fixed point ({h["model"]}), time')


def gf2_reference(sim):
    """The same loop with the reference model, nothing going wrong"""
    env, h = sim.env, sim.h
    x = np.zeros(env.ref.L)
    be = env.ref.beta
    tp = np.array(env.get(['smp', ['ir'], 'tau', None]).sampling_points)
    At, Ab = env.matrix(['ir'], 'tau', tp), env.matrix(['ir'], 'tau', be - tp)
    Pt = np.linalg.pinv(At, rcond=1e-14)
    ms = []
    for smp in h['samplers']:
        _, p, _ = sim.sampler(smp, None)
        A = env.matrix(['ir'], smp[2], p)
        ms.append((A, np.linalg.pinv(rows(A, smp[2] == 'pos'), rcond=1e-14),
                   1j * np.pi / be * p, smp[2] == 'pos'))
    for i, s in enumerate(h['steps']):
        A, P, iv, split = ms[s['smp']]
        gt, gb = At @ x, Ab @ x
        sl = Pt @ (h['u'] ** 2 * gt * gt * -gb)
        new = 1 / (iv - h['e0'] - A @ sl)
        y = (P @ rows(new[:, None], split))[:, 0].real
        x = .5 * y + .5 * x
    return x


START = {'chain': chain_start, 'walk': walk_start, 'loop': loop_start}
STEP = {'chain': chain_step, 'walk': walk_step, 'loop': loop_step}


def run(env, h, state=None, skip=()):
    """Run a history until it ends or the process dies"""
    sim = Sim(env, h)
    out = {'bad': None, 'saved': None, 'crash': None}
    typ = h['type']
    i = -1
    try:
        if state is None:
            st, i0 = START[typ](sim), 0
            out['saved'] = (pickle.dumps((env, st, 0), 4))
        else:
            st, i0 = state
        for i in range(i0, len(h['steps'])):
            m = h['steps'][i].get('mark')
            if m and m['k'] == 'save':
                out['saved'] = pickle.dumps((env, st, i), 4)
                sim.count('saved')
            if m and m['k'] == 'crash' and i not in skip:
                out['crash'] = i
                break
            STEP[typ](sim, st, i)
        else:
            if typ == 'loop':
                loop_end(sim, st)
    except Bad as e:
        out['bad'] = (e.key, e.text)
    except (Exception, KeyboardInterrupt) as e:         # noqa: B902
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if any('/sparse_ir/' in f.filename for f in tb):
            out['bad'] = ('raise', f'step {i}: {type(e).__name__}: '
                          + canon.message(e))
        else:
            raise
    out['n'], out['worst'] = sim.n, sim.worst
    return out


def resume(cfg, h, out):
    """Another process takes over"""
    crashed = []
    last = out
    while last['crash'] is not None and not last['bad'] and len(crashed) < 5:
        i = last['crash']
        crashed.append(i)
        how = h['steps'][i]['mark']['how']
        blob = last['saved'] or out['saved']

        def child(blob=blob):
            alloc.arm('plain')
            user_class()
            try:
                env, st, k = pickle.loads(blob)
            except Exception as e:                      # noqa: B902
                return {'bad': ('load', f'{type(e).__name__}: {e}'), 'crash': None,
                        'saved': None, 'n': {}, 'worst': {}}
            if how == 'rebuild':
                env = Env(cfg, env.ref)
            return run(env, h, (st, k), crashed)
        st, nxt = proc.run(child, 200)
        if st == 'err':
            raise RuntimeError(nxt)
        if st != 'ok':
            last = {'bad': (st, f'process: {st}'), 'crash': None}
            break
        nxt['n'][f'fault:crash, {how}'] = 1
        if nxt['saved'] is None:
            nxt['saved'] = blob
        for k, v in nxt['n'].items():
            out['n'][k] = out['n'].get(k, 0) + v
        for k, v in nxt['worst'].items():
            if k not in out['worst'] or v[0] > out['worst'][k][0]:
                out['worst'][k] = v
        last = nxt
    out['bad'] = last['bad']
    return out


def make_env(cfg):
    user_class()
    env = Env(cfg)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        env.ref = Ref(env.get(['ir']), cfg['cls'])
    return env


def world(r, i, tier, rec):
    cfg = gen_cfg(r, tier)
    n = 12

    def zygote():
        alloc.arm('plain')
        try:
            env = make_env(cfg)
        except Exception:                               # noqa: B902
            return [{'type': 'none', 'steps': []}], [('err', traceback.format_exc())]
        hs, res = [], []
        for _ in range(n):
            h = r.choice([gen_chain, gen_chain, gen_walk, gen_loop])(r, env)
            hs.append(h)
            res.append(proc.run(lambda: run(env, h), 200))
        return hs, res
    st, got = proc.run(zygote, 900)
    if st != 'ok':
        raise RuntimeError(f'zygote: {st} {got} {cfg}')
    for h, (st, out) in zip(*got):
        rec.n['runs'] += 1
        sc = {'cfg': cfg, 'history': h}
        if st == 'err':
            raised = proc.library_error(out)
            if raised is None:
                raise RuntimeError(f'{out}\n{cfg}\n{json.dumps(h)[:3000]}')
            rec.viol.append(('raise', f'{h["type"]}: {raised}', sc))
            continue
        if st != 'ok':
            rec.viol.append((st, f'process: {st}', sc))
            continue
        out = resume(cfg, h, out)
        note(rec, cfg, h, out)
        if out['bad']:
            rec.viol.append((out['bad'][0], f'{h["type"]}: {out["bad"][1]}', sc))
        elif 'units differ' in out['n']:
            rec.viol.append(UNITS + (sc,))
        elif not rec.samples:
            rec.samples.append({'cfg': cfg, 'type': h['type'],
                                'steps': h['steps'][:2]})


def note(rec, cfg, h, out):
    rec.n['history: ' + h['type']] += 1
    for k, v in out['n'].items():
        if k == 'units differ':
            rec.n['units differ'] += 1
            continue
        rec.n[k] += v
    rec.n['steps'] += out['n'].get('judged', 0)
    if out['n'].get('judged', 0) >= 3 or h['type'] == 'loop':
        rec.case(json.dumps([cfg, h], sort_keys=True))
    for k, (q, what) in out['worst'].items():
        if k not in WORST or q > WORST[k][0]:
            WORST[k] = (q, what, json.dumps(cfg))
    rec.sets['bases'].add((cfg['cls'], cfg['stat'], cfg['how']))


def replay(sc):
    cfg, h = sc['cfg'], sc['history']

    def child():
        alloc.arm('plain')
        return run(make_env(cfg), h)
    st, out = proc.run(child, 300)
    if st == 'err':
        raised = proc.library_error(out)
        if raised is None:
            raise RuntimeError(out)
        return 'raise', f'{h["type"]}: {raised}', sc
    if st != 'ok':
        return st, f'process: {st}', sc
    out = resume(cfg, h, out)
    if not out['bad']:
        return UNITS + (sc,) if 'units differ' in out['n'] else None
    return out['bad'][0], f'{h["type"]}: {out["bad"][1]}', sc


def shrink(sc):
    h = sc['history']
    steps = h['steps']
    if h['type'] != 'loop':
        size = max(1, len(steps) // 2)
        while size >= 1:
            for i in range(0, len(steps), size):
                if len(steps) > size:
                    yield dict(sc, history=dict(h, steps=steps[:i] + steps[i + size:]))
            size //= 2
    for key in ('mark', 'fault', 'noise', 'twice', 'lost'):
        if any(key in s for s in steps):
            yield dict(sc, history=dict(h, steps=[
                {k: v for k, v in s.items() if k != key} for s in steps]))
    for i, s in enumerate(steps):
        for key in ('mark', 'fault', 'noise', 'twice', 'lost'):
            if key in s:
                q = {k: v for k, v in s.items() if k != key}
                yield dict(sc, history=dict(h, steps=steps[:i] + [q] + steps[i + 1:]))
    if h.get('batch'):
        yield dict(sc, history=dict(h, batch=[]))
    if len(h.get('poles', ())) > 1:
        for p in h['poles']:
            yield dict(sc, history=dict(h, poles=[p]))
    if h['type'] == 'loop' and len(h['samplers']) > 1:
        for q in h['samplers']:
            yield dict(sc, history=dict(h, samplers=[q], steps=[
                dict(s, smp=0) for s in steps]))
    if sc['cfg']['how'] != 'plain':
        yield dict(sc, cfg=dict(sc['cfg'], how='plain'))
