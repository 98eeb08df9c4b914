"""K01: overlap integrals survive any behaviour of the integrand."""
import json
import math
import os
import warnings

import numpy as np

from .. import alloc, ambient, boot, canon, proc

PROP = 'K01'
PLAN = {'quick': (1500, 60), 'thorough': (60000, 760)}
RULE = ('A case is one call of overlap() of a set of piecewise polynomials (basis '
        'functions in time and frequency, singular functions, slices, derivatives, '
        'made-up polynomials of all ranks) with a simulated integrand: a base '
        'function of a known family (smooth, oscillating, kinks, jumps, '
        'singularities, zero) of some shape and type, and a script of misbehaviour '
        'tied to numbered calls (errors, NaN, infinities, glitches, changes of '
        'shape, garbage, re-entrant use of the library), to regions (NaN) or to '
        'all calls (noise, reused output buffer). Judged: same exception object '
        'comes out; all points inside the domain; bounded number of calls; shape; '
        'value within the requested tolerance of an independent quadrature or a '
        'warning; no warning for well-behaved functions; inner and outer results '
        'of re-entrant calls equal to the results alone. Non-trivial: the '
        'integrand misbehaved or the integration had to refine. Distinct: by '
        'polynomials, function, tolerance and script.')
REAL = ['all of sparse_ir from the working tree', 'NumPy']
STUB = ['integrand (scripted by the simulator)']
ASSUME = ['features narrower than the spacing of the first quadrature points are '
          'not generated: no finite rule sees them',
          'rough functions (kinks, jumps, singularities, undersampled '
          'oscillations) only with rtol <= 1e-10, where two rules agreeing by '
          'accident is improbable']
LIMIT = 5_000_000


class Exceeded(BaseException):
    pass


class Custom(BaseException):
    pass


class CustomE(Exception):
    pass


EXC = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt,
       'StopIteration': StopIteration, 'MemoryError': MemoryError,
       'ZeroDivisionError': ZeroDivisionError, 'Custom': Custom,
       'CustomE': CustomE, 'GeneratorExit': GeneratorExit,
       'RuntimeWarning': RuntimeWarning, 'IndexError': IndexError,
       'SystemExit': SystemExit, 'FloatingPointError': FloatingPointError,
       'RecursionError': RecursionError, 'LinAlgError': np.linalg.LinAlgError}


# -------------------------------------------------------------------- objects

BASES = {}


def prepare(tier):
    import sparse_ir as s
    from sparse_ir import sve, kernel
    mk = s.FiniteTempBasis
    BASES['F10'] = mk('F', 1.0, 10.0, 1e-6)
    BASES['B42'] = mk('B', 2.0, 21.0, 1e-10)
    BASES['F1'] = mk('F', .5, 2.0, 1e-4)
    BASES['R10'] = mk('B', 3.0, 10 / 3, 1e-7, kernel=s.RegularizedBoseKernel(10.0))
    BASES['F1e3'] = mk('F', 100.0, 10.0, 1e-8)
    BASES['S10'] = sve.compute(kernel.LogisticKernel(10.0), 1e-8)


def polys(q):
    """Polynomials described by q"""
    from sparse_ir import poly as P
    if q['src'] == 'custom':
        r = np.random.RandomState(q['seed'])
        nk = q['nk']
        knots = np.hstack([q['lo'], q['lo'] + (q['hi'] - q['lo'])
                           * np.sort(r.uniform(.05, .95, nk - 1)), q['hi']])
        data = r.normal(size=(q['deg'] + 1, nk) + tuple(q['shape']))
        hard = q.get('hard')
        if hard:
            # one function unlike the others
            flat = data.reshape(q['deg'] + 1, nk, -1)
            others = np.arange(flat.shape[2]) != hard['j'] % flat.shape[2]
            if hard['how'] == 'degree':
                flat[3:, :, others] = 0
            else:
                flat[:, hard['seg'], others] = 0
        return P.PiecewiseLegendrePoly(data, knots)
    b = BASES[q['src']]
    f = getattr(b, q['attr'])
    s = q.get('sl')
    if isinstance(s, int):
        f = f[s % f.size]
    elif s:
        f = f[min(s[0], f.size - 1):s[1]]
    if q.get('deriv'):
        f = f.deriv(q['deriv'])
    return f


# ------------------------------------------------------------------ integrand

def base_value(g, z):
    """Base function at z in [-1, 1]; z0 is the coordinate relative to g['p']"""
    fam = g['fam']
    p, a = g.get('p', 0.0), g.get('a', 1.0)
    if fam == 'exp':
        return math.exp(a * z)
    if fam == 'cos':
        return math.cos(a * z + p)
    if fam == 'pole':
        return 1 / (z - p)
    if fam == 'pol':
        return 1 + z * (a - z * (p + z))
    if fam == 'zero':
        return 0.0
    if fam == 'const':
        return a
    if fam == 'osc':
        return math.sin(a * z)
    d = z - p
    if fam == 'kink':
        return abs(d)
    if fam == 'kink2':
        return max(d, 0.0) ** 1.5
    if fam == 'jump':
        return 1.0 if d > 0 else a
    if fam == 'sing':
        return 1 / math.sqrt(abs(d)) if d else math.inf
    if fam == 'log':
        return math.log(abs(d)) if d else -math.inf
    raise ValueError(fam)


SMOOTH = ('exp', 'cos', 'pole', 'pol', 'zero', 'const')


def components(g):
    """Factors for each component of the value, and a variation in z"""
    n = int(np.prod(g['nf'], dtype=int))
    return [(1.0 if i == 0 else math.cos(1.3 * i), .4 * (i % 3)) for i in range(n)]


def added(g):
    """Weights of the second function: scalar, or one for each component"""
    a = g.get('add')
    if not a:
        return 0
    w = a['amp'] * (1j if a.get('im') else 1)
    if not g['nf']:
        return w
    out = np.zeros(g['nf'], type(w))
    if a.get('i') is None:
        out[...] = w
    else:
        out.ravel()[a['i'] % out.size] = w
    return out


ROUGH = ('kink', 'kink2', 'jump', 'sing', 'log', 'osc')


class Integrand:
    def __init__(self, q, poly):
        self.q, self.g, self.poly = q, q['f'], poly
        self.lo, self.hi = float(poly.xmin), float(poly.xmax)
        self.mid, self.half = .5 * (self.lo + self.hi), .5 * (self.hi - self.lo)
        self.n = 0
        self.outside = None
        self.raised = None
        self.fmax = 0.0
        self.inner = []
        self.fired = []
        self.script = {}
        for s in q.get('script', ()):
            self.script.setdefault(s['at'], []).append(s)
        self.buf = None
        self.cplx = False
        self.rng = np.random.RandomState(q.get('nseed', 1))
        self.nanreg = q.get('nanreg')
        self.noise = q.get('noise')
        self.track = bool(self.noise or self.script or q.get('every'))
        self.prev = math.inf
        self.levels = []
        self.stay = []
        self.add = self.g.get('add')
        self.addw = added(self.g)
        self.comp = None
        if self.g['nf']:
            ck = np.array(components(self.g)).T
            self.comp = ck.reshape((2,) + tuple(self.g['nf']))

    def __call__(self, x):
        self.n += 1
        if self.n > LIMIT:
            raise Exceeded()
        if not self.lo <= x <= self.hi:
            self.outside = float(x)
        if x < self.prev:
            self.levels.append(self.n)
        self.prev = x
        z = (float(x) - self.mid) / self.half
        v = base_value(self.g, z)
        if self.comp is not None:
            c, k = self.comp
            v = (c + k * z) * v
            if self.g.get('c'):
                v = v * (1 - .7j)
        elif self.g.get('c'):
            v = v * (.3 + 1j) if math.isfinite(v) else complex(v, v)
        if self.add:
            v = v + self.addw * base_value(self.add, z)
        if self.g.get('scale'):
            v = v * self.g['scale']
        if self.noise:
            v = v + self.noise * (2 * self.rng.uniform(size=self.g['nf'] or None) - 1)
        if self.nanreg and self.nanreg[0] <= z <= self.nanreg[1]:
            v = v * math.nan
            self.fired.append('nanreg')
        act = self.script.get(self.n)
        if act:
            self.stay += [s for s in act if s.get('stay')]
            for s in act:
                if not s.get('stay'):
                    v = self.act(s, v, x)
        for s in self.stay:
            v = self.act(s, v, x)
        for s in self.q.get('every', ()):
            if self.n % s['n'] == 0:
                v = self.act(s, v, x)
        if self.track:
            try:
                m = float(np.abs(v).max())
                if math.isfinite(m):
                    self.fmax = max(self.fmax, m)
            except (TypeError, ValueError):
                pass
        return self.dress(v)

    def dress(self, v):
        d = self.g.get('dress')
        if d == 'buffer' and isinstance(v, np.ndarray):
            if self.buf is None or self.buf.shape != v.shape \
                    or self.buf.dtype != v.dtype:
                self.buf = np.empty(v.shape, v.dtype)
            self.buf[...] = v
            return self.buf
        if d == 'buffer0' and isinstance(v, (float, complex)):
            if self.buf is None or self.buf.dtype.type is not type(np.array(v)[()]):
                self.buf = np.array(v)
            self.buf[...] = v
            return self.buf
        if d == 'list' and isinstance(v, np.ndarray):
            return v.tolist()
        if d == 'F' and isinstance(v, np.ndarray):
            return np.asfortranarray(v)
        if d == 'np' and isinstance(v, float):
            return np.float64(v)
        if d == 'part' and isinstance(v, np.ndarray):
            if self.buf is None or self.buf.shape[1:] != v.shape:
                self.buf = np.empty((2,) + v.shape, v.dtype)
            self.buf[1] = v
            return self.buf[1]
        return v

    def act(self, s, v, x):
        do = s['do']
        self.fired.append(do)
        if do == 'raise':
            self.raised = EXC[s['exc']]('simulated')
            raise self.raised
        if do in ('nan', 'inf', 'ninf'):
            z = {'nan': math.nan, 'inf': math.inf, 'ninf': -math.inf}[do]
            if isinstance(v, np.ndarray):
                v = v.copy()
                v.ravel()[s.get('i', 0) % v.size] = z
                return v
            return z
        if do == 'glitch':
            return v + s['by']
        if do == 'shape':
            v = np.asarray(v)
            return {'up': lambda: v[None], 'two': lambda: np.array([v, v]),
                    'flat': lambda: v.ravel() if v.ndim != 1 else v[:, None],
                    'cut': lambda: v[:-1] if v.ndim and v.shape[0] > 1
                    else np.array([v, v, v]),
                    'T': lambda: v.T if v.T.shape != v.shape else v[..., None],
                    'scalar': lambda: 1.0 if v.ndim else v[None, None]}[s['how']]()
        if do == 'garbage':
            return {'none': None, 'str': 'abc', 'dict': {}, 'obj': object()}[s['how']]
        if do == 'complex':
            self.cplx = True
            return v + 0j
        if do == 'call':
            with np.errstate(all='ignore'):
                self.inner.append((json.dumps(s['what']),
                                   canon.outcome(lambda: inner(s['what'], self.poly, x))))
            return v
        raise ValueError(do)


def inner(w, poly, x):
    """Use of the library from inside the integrand"""
    k = w['k']
    b = BASES[w['b']]
    x0 = poly.xmin + w['x'] * (poly.xmax - poly.xmin)
    if k == 'eval':
        return poly(x0)
    if k == 'overlap':
        a = w['a']
        return poly.overlap(lambda t: math.cos(a * t / poly.xmax), rtol=1e-8,
                            return_error=True)
    if k == 'overlap2':
        # two levels down
        def f2(t):
            if f2.n == 0:
                f2.n += 1
                f2.r = b.u[0].overlap(lambda y: 1 + y, rtol=1e-8)
            return 1 + t
        f2.n, f2.r = 0, None
        return b.u[1].overlap(f2, rtol=1e-8), f2.r
    if k == 'fail':
        def f3(t):
            raise KeyError('inner')
        return poly.overlap(f3)
    if k == 'deriv':
        return poly.deriv()(x0), b.v.deriv(2)(b.v.xmax * .3)
    if k == 'uhat':
        return b.uhat(np.array([1, 3, 21]) if b.statistics == 'F'
                      else np.array([0, 2, 40]))
    if k == 'smpl':
        import sparse_ir as s
        t = s.TauSampling(b)
        return t.evaluate(np.arange(1.0, b.size + 1)), t.sampling_points
    if k == 'wsmpl':
        import sparse_ir as s
        t = s.MatsubaraSampling(b)
        return t.fit(t.evaluate(np.arange(1.0, b.size + 1)))
    if k == 'rule':
        from sparse_ir import _gauss
        g = _gauss.kronrod_31_15().reseat(-1.0, 2.0)
        return g.x, g.w, g.v, _gauss.legendre(w['n']).x
    if k == 'dlr':
        from sparse_ir import dlr
        d = dlr.DiscreteLehmannRepresentation(b)
        return d.u(b.beta * .3), d.sampling_points
    if k == 'basis':
        import sparse_ir as s
        c = s.FiniteTempBasis('F', 1.0, 2.0, 1e-3)
        return c.u(.2), c.s
    raise ValueError(k)


# ------------------------------------------------------------------ reference

_gl = np.polynomial.legendre.leggauss(36)


def exact(q, poly):
    """(integral, ∫|f u|, ∫|u|) by quadrature adapted to the known structure"""
    g = q['f']
    val, axu, au = exact1(g, poly, components(g) if g['nf'] else [(1.0, 0.0)])
    c = (.3 + 1j if not g['nf'] else 1 - .7j) if g.get('c') else 1
    val, axu = val * c, axu * abs(c)
    if g.get('add'):
        v2, a2, _ = exact1(g['add'], poly, [(1.0, 0.0)])
        w = np.ravel(added(g))
        val = val + v2 * w
        axu = axu + a2 * np.abs(w).max()
    z = g.get('scale', 1.)
    return val * z, axu * z, au


def exact1(g, poly, comp):
    lo, hi = float(poly.xmin), float(poly.xmax)
    mid, half = .5 * (lo + hi), .5 * (hi - lo)
    edges = [(float(k) - mid) / half for k in poly.knots]
    nsub = 3 if g['fam'] in SMOOTH else int(abs(g.get('a', 0)) / 10) + 2 \
        if g['fam'] == 'osc' else 3
    p = g.get('p')
    rough = g['fam'] in ('kink', 'kink2', 'jump', 'sing', 'log')
    if rough:
        edges = sorted([e for e in edges if abs(e - p) > 1e-12] + [p])
    if g['fam'] in ('sing', 'log', 'kink2'):
        # no segment longer than its distance from the singularity
        todo, out = list(zip(edges[:-1], edges[1:])), []
        while todo:
            a, b = todo.pop()
            if p not in (a, b) and max(a - p, p - b) < b - a:
                todo += [(a, .5 * (a + b)), (.5 * (a + b), b)]
            else:
                out.append((a, b))
        edges = sorted({x for ab in out for x in ab})
    val = None
    axu = au = 0.0
    ux, uw = _gl
    for e0, e1 in zip(edges[:-1], edges[1:]):
        if g['fam'] in ('sing', 'log', 'kink2') and p in (e0, e1):
            # graded towards p
            t = np.hstack([0, 2.0 ** -np.arange(110, -1, -1)]) * (e1 - e0)
            parts = [(t[i], t[i + 1]) for i in range(len(t) - 1)]
            sgn = 1 if p == e0 else -1
        else:
            t = np.linspace(0, e1 - e0, nsub + 1)
            parts = [(t[i], t[i + 1]) for i in range(nsub)]
            sgn = 0
        for a, b in parts:
            d = .5 * (a + b) + .5 * (b - a) * ux
            w = .5 * (b - a) * uw * half
            z = e0 + d if sgn >= 0 else e1 - d
            if sgn:
                h = np.array([1 / math.sqrt(x) if g['fam'] == 'sing' else
                              math.log(x) if g['fam'] == 'log' else
                              x ** 1.5 if sgn > 0 else 0.0 for x in d])
            else:
                h = np.array([base_value(g, x) for x in z])
            x = np.clip(mid + half * z, lo, hi)
            u = np.asarray(poly(x)).reshape(-1, x.size)
            f = np.array([h * (c + k * z) for c, k in comp])
            part = np.einsum('lx,x,cx->lc', u, w, f)
            val = part if val is None else val + part
            axu = axu + (np.abs(u)[:, None, :] * w * np.abs(f)).sum(2)
            au = au + np.abs(u) @ w
    return val, axu.max(1), au


def unseen(q, poly):
    """Jumps and kinks closer to the edge of a segment than its outermost point
    are invisible: largest resulting error"""
    out = 0.0
    for g, w in ((q['f'], 1.), (q['f'].get('add'), 1.)):
        if not g or g['fam'] not in ('jump', 'kink', 'kink2'):
            continue
        lo, hi = float(poly.xmin), float(poly.xmax)
        half = .5 * (hi - lo)
        kn = np.unique(np.hstack([(poly.knots - .5 * (lo + hi)) / half,
                                  q.get('points') or []]))
        p = g['p']
        i = int(np.clip(np.searchsorted(kn, p, 'right') - 1, 0, kn.size - 2))
        a, b = float(kn[i]), float(kn[i + 1])
        x = min(max(.5 * (lo + hi) + half * p, lo), hi)
        u = float(np.abs(poly(x)).max())
        while b - a > 1e-13:
            d = min(p - a, b - p)
            if d < .0025 * (b - a):
                h = {'jump': abs(1 - g.get('a', 0)), 'kink': 2 * d,
                     'kink2': abs(d) ** 1.5}[g['fam']]
                out = max(out, 5 * abs(d) * half * h * u)
            m = .5 * (a + b)
            a, b = (m, b) if p > m else (a, m)
    return out * q['f'].get('scale', 1.)


# ----------------------------------------------------------------------- run

def call(q, poly):
    f = Integrand(q, poly)
    warn = []

    def show(message, category, filename, lineno, file=None, line=None):
        warn.append((category.__name__, str(message)[:100]))
    old = warnings.showwarning
    warnings.resetwarnings()
    warnings.simplefilter('always')
    warnings.showwarning = show
    olderr = np.seterr(all='warn' if q.get('fpwarn') else 'ignore')
    try:
        kw = {'return_error': bool(q.get('err', 1))}
        if q.get('rtol') is not None:
            kw['rtol'] = q['rtol']
        if q.get('points') is not None:
            pts = [f.mid + f.half * z for z in q['points']]
            kw['points'] = np.array(pts) if q.get('parr') else pts
        try:
            out = ('ret', poly.overlap(f, **kw))
        except BaseException as e:                      # noqa: B902
            out = ('exc', e)
    finally:
        np.seterr(**olderr)
        warnings.showwarning = old
        warnings.simplefilter('ignore')
    return f, out, warn


def well_behaved(q):
    g = q['f']
    if q.get('script') or q.get('every') or q.get('noise') or q.get('nanreg'):
        return False
    r = q.get('rtol')
    if r is None or r < 1e-11 or g.get('add'):
        return False
    return g['fam'] in SMOOTH or (g['fam'] in ('jump', 'kink')
                                  and g['p'] in (q.get('points') or ()))


WORST = None


def judge(q, poly, f, out, warn, worst=None):
    g = q['f']
    nf = tuple(g['nf'])
    if out[0] == 'exc' and isinstance(out[1], Exceeded):
        return 'endless', f'more than {LIMIT} evaluations of the integrand'
    if f.outside is not None:
        return 'outside', f'integrand called at {f.outside!r}, outside of ' \
            f'[{f.lo}, {f.hi}]'
    if f.raised is not None:
        if out[0] != 'exc':
            return 'error lost', (f'integrand raised {type(f.raised).__name__} at '
                                  f'call {f.n}, but overlap returned')
        e = out[1]
        if e is not f.raised and type(e) is not type(f.raised):
            return 'error changed', (f'integrand raised {type(f.raised).__name__} '
                                     f'at call {f.n}, caller got {type(e).__name__}: {e}')
        return None
    if 'shape' in f.fired:
        if out[0] != 'exc':
            return 'shape lost', 'integrand changed its shape without an error'
        if not isinstance(out[1], ValueError):
            return 'shape error', f'change of shape: {type(out[1]).__name__}: {out[1]}'
        return None
    if 'garbage' in f.fired:
        if out[0] != 'exc' and not warn:
            return 'garbage', 'integrand returned no number, no error'
        return None
    if out[0] == 'exc':
        e = out[1]
        return 'raises', f'{type(e).__name__}: {e}'
    res = out[1]
    err = None
    if q.get('err', 1):
        res, err = res
        if np.shape(err) != poly.shape + nf:
            return 'shape', f'error of shape {np.shape(err)}'
    if np.shape(res) != poly.shape + nf:
        return 'shape', f'result of shape {np.shape(res)} instead of {poly.shape + nf}'
    if well_behaved(q) and warn:
        return 'spurious warning', f'{warn[0]}'
    if warn:
        return None
    if 'nanreg' in f.fired:
        with np.errstate(all='ignore'):
            if np.isfinite(res).all():
                return 'nan hidden', 'integrand is NaN in a region, result is finite'
        return None
    if f.fired and any(x in ('inf', 'ninf') for x in f.fired) and \
            not np.isfinite(res).all():
        return None
    val, axu, au = exact(q, poly)
    res = np.asarray(res).reshape(val.shape)
    nseg = max(f.n / 31, 1)
    rtol = 2.3e-16 if q.get('rtol') is None else q['rtol']
    rough = g['fam'] not in SMOOTH and not (
        g['fam'] in ('jump', 'kink') and g.get('p') in (q.get('points') or ()))
    rough = rough or bool(g.get('add'))
    mag = axu
    if 'glitch' in f.fired or any(x.startswith('every') for x in f.fired) \
            or q.get('noise'):
        mag = np.maximum(axu, f.fmax * au)
    big = 20 * nseg
    if rough:
        big = max(big, 1e8 if rtol < 1e-12 else 1e5)
    tol = big * rtol * mag + 2e-13 * mag + 4 * q.get('noise', 0) * au
    tol = tol + unseen(q, poly)
    tol = tol[:, None] + 1e-300
    d = np.abs(res - val)
    if worst is not None:
        k = ('rough' if rough else 'smooth') + (' script' if f.fired else '')
        worst[k] = max(worst.get(k, 0), float((d / tol).max()))
    if not (d <= tol).all():
        i = np.unravel_index((d / tol).argmax(), d.shape)
        return 'value', (f'function {i[0]}, component {i[1]}: {res[i]} instead of '
                         f'{val[i]}, no warning (tolerance {tol[i[0], 0]:.3g})')
    return None


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def run_case(q, worst=None):
    """(violation or None, statistics)"""
    ambient.arm(q.get('amb'))
    poly = polys(q['poly'])
    q = place(q, poly)
    f, out, warn = call(q, poly)
    st = {'calls': f.n, 'fired': f.fired[:200], 'warn': len(warn),
          'refined': f.n > 31 * (len(poly.knots) - 1)}
    v = judge(q, poly, f, out, warn, worst)
    if v:
        return v, st
    if 'call' in f.fired:
        # inner results equal those outside, outer result equals the undisturbed
        for what, got in f.inner:
            want = canon.outcome(lambda: inner(json.loads(what), poly, None))
            d = canon.outcome_differ(want, got, None)
            if d:
                return ('inner', f'{what} called from the integrand: {d}'), st
        q2 = dict(q, script=[s for s in q['script'] if s['do'] != 'call'])
        f2, out2, _ = call(q2, poly)
        if out[0] == 'ret' == out2[0]:
            a, b = (out[1], out2[1]) if q.get('err', 1) else ((out[1],), (out2[1],))
            if f.n != f2.n or not all(same(x, y) for x, y in zip(a, b)):
                return ('outer', 'integrand using the library changes the outer '
                        'result'), st
        elif out[0] != out2[0]:
            return ('outer', 'integrand using the library changes the outcome'), st
    if q.get('again'):
        # nothing left behind
        q2 = {k: w for k, w in q.items() if k not in (
            'script', 'every', 'noise', 'nanreg')}
        q2['f'] = dict(q['f'], fam='exp', a=1.0)
        q2['rtol'] = 1e-9
        f2, out2, w2 = call(q2, poly)
        v = judge(q2, poly, f2, out2, w2)
        if v:
            return ('later ' + v[0], f'next call: {v[1]}'), st
    return None, st


def place(q, poly):
    """Resolve places given relative to what happens: positions in the domain
    and numbers of calls"""
    q = json.loads(json.dumps(q))
    f = q['f']
    lo, hi = float(poly.xmin), float(poly.xmax)
    for f in (q['f'].get('add') or {}, q['f']):
        if isinstance(f.get('p'), list):
            how, a = f['p']
            kn = [(2 * float(k) - lo - hi) / (hi - lo) for k in poly.knots]
            i = int(a * (len(kn) - 1))
            if how == 'knot':
                f['p'] = kn[max(1, i)] if len(kn) > 2 else .1
            elif how == 'in':
                f['p'] = .63 * kn[i] + .37 * kn[i + 1]
            else:
                f['p'] = .5 * (kn[i] + kn[i + 1])
    if q.get('points') is not None:
        q['points'] = [f['p'] if x == 'p' else x for x in q['points']]
    mid, half = .5 * (lo + hi), .5 * (hi - lo)
    nseg = np.unique(np.hstack([poly.knots, [mid + half * z for z in
                                             q.get('points') or ()]])).size - 1
    if any(isinstance(s['at'], (float, list)) for s in q.get('script', ())):
        q0 = {k: w for k, w in q.items() if k not in ('script', 'every')}
        f0 = call(q0, poly)[0]
        for s in q['script']:
            if isinstance(s['at'], float):
                s['at'] = min(f0.n, 1 + int(s['at'] * f0.n))
            elif isinstance(s['at'], list):
                s['at'] = f0.levels[int(s['at'][1] * len(f0.levels))]
    for s in q.get('script', ()):
        if s['at'] == 'level1':
            s['at'] = 31 * nseg + 1
        elif s['at'] == 'end0':
            s['at'] = 31 * nseg
        elif s['at'] == 'half0':
            s['at'] = 31 * nseg // 2 + 1
        if s.get('stay') and s['at'] == 1:
            s['at'] = 2         # always the same is no change
    return q


# ---------------------------------------------------------------------- worlds

def gen_poly(r):
    src = r.choice(['F10', 'F10', 'B42', 'F1', 'R10', 'F1e3', 'S10', 'custom',
                    'custom'])
    if src == 'custom':
        lo, hi = r.choice([(-1.0, 1.0), (0.0, 2.0), (-3.0, 7.5), (1e-3, .02)])
        q = {'src': src, 'seed': r.randrange(1000), 'nk': r.randint(1, 7),
             'deg': r.choice([0, 1, 3, 8, 12]), 'lo': lo, 'hi': hi,
             'shape': r.choice([[], [1], [3], [2, 3], [5]])}
        if r.random() < .5:
            q['shape'] = r.choice([[3], [2, 3], [5], [2, 2, 2]])
            q['hard'] = {'j': r.randrange(8), 'how': r.choice(['degree', 'seg'])}
            if q['hard']['how'] == 'degree':
                q['deg'] = r.choice([30, 35, 45])
            else:
                q['hard']['seg'] = r.randrange(q['nk'])
        return q
    q = {'src': src, 'attr': r.choice('uv')}
    k = r.random()
    if k < .5:
        q['sl'] = r.randrange(5)
    elif k < .9:
        a = r.randrange(4)
        q['sl'] = [a, a + r.randint(1, 3)]
    if r.random() < .15:
        q['deriv'] = r.choice([1, 1, 2])
    return q


def gen_f(r):
    f = {'fam': r.choice(['exp', 'cos', 'pole', 'pol', 'const', 'exp', 'cos',
                          'cos', 'zero', 'osc', 'kink', 'kink2', 'jump', 'sing',
                          'log']),
         'nf': r.choice([[], [], [], [1], [3], [2, 2], [2], [2, 3]])}
    fam = f['fam']
    if fam == 'exp':
        f['a'] = r.choice([1.0, -2.0, 5.0])
    elif fam == 'cos':
        f['a'], f['p'] = r.choice([1.0, 6.0, 18.0]), r.choice([0.0, .4, 1.571])
    elif fam == 'pole':
        f['p'] = r.choice([-1.25, 1.5, 3.0])
    elif fam == 'pol':
        f['a'], f['p'] = r.uniform(-2, 2), r.uniform(-2, 2)
    elif fam == 'const':
        f['a'] = r.choice([1.0, -3.0, 1e-200, 1e100])
    elif fam == 'osc':
        f['a'] = r.choice([50.0, 300.0, 1500.0])
    elif fam != 'zero':
        f['p'] = r.choice([0.0, .1234, ['knot', r.random()], ['mid', r.random()],
                           round(r.uniform(-.98, .98), 6)])
        if fam == 'jump':
            f['a'] = r.choice([-.5, 0.0, .99])
    if r.random() < .25:
        f['c'] = 1
    if r.random() < .2:
        # inconvenient units
        f['scale'] = r.choice([1e-12, 1e-18, 1e-18, 1e-30, 1e-100, 1e15, 1e60])
    if fam in SMOOTH and fam != 'zero' and f.get('a') not in (1e-200, 1e100) \
            and r.random() < .4:
        # one component, or the imaginary part, harder than the rest
        add = f['add'] = {'fam': r.choice(ROUGH), 'amp': r.choice([1.0, .1])}
        if add['fam'] == 'osc':
            add['a'] = r.choice([50.0, 300.0])
        else:
            add['p'] = r.choice([.1234, ['in', r.random()],
                                 round(r.uniform(-.98, .98), 6)])
            if add['fam'] == 'jump':
                add['a'] = r.choice([-.5, 0.0])
        if r.random() < .5:
            add['im'] = 1
        if r.random() < .7:
            add['i'] = r.randrange(6)
    if r.random() < .5:
        f['dress'] = r.choice(['buffer', 'part', 'list', 'F'] if f['nf']
                              else ['buffer0', 'np', 'buffer0'])
    return f


CALLS = ['eval', 'overlap', 'overlap2', 'fail', 'deriv', 'uhat', 'smpl', 'wsmpl',
         'rule', 'dlr', 'basis']


def gen_script(r, q):
    out = []
    n = r.choice([1, 1, 1, 2, 4])
    kind = r.choice(['raise', 'nan', 'inf', 'ninf', 'glitch', 'glitch', 'shape',
                     'garbage', 'call', 'call', 'complex', 'raise'])
    for _ in range(n):
        s = {'do': kind}
        s['at'] = r.choice([1, 2, 'end0', 'level1', 'half0', round(r.random(), 6),
                            round(r.random(), 6), round(r.random(), 6)])
        if kind == 'raise':
            s['exc'] = r.choice(sorted(EXC) + ['StopIteration'] * 3)
        elif kind in ('nan', 'inf', 'ninf'):
            s['i'] = r.randrange(4)
        elif kind == 'glitch':
            s['by'] = r.choice([1e-6, 1e-3, 1.0, 1e3, 1e8])
        elif kind == 'shape':
            s['how'] = r.choice(['up', 'two', 'flat', 'cut', 'scalar', 'T', 'T'])
            if r.random() < .6:
                # from some level of refinement on
                s['stay'], s['at'] = 1, ['level', round(r.random(), 6)]
                out = [s]
                break
        elif kind == 'garbage':
            s['how'] = r.choice(['none', 'str', 'dict', 'obj'])
        elif kind == 'call':
            s['what'] = {'k': r.choice(CALLS), 'b': r.choice(['F10', 'F1', 'R10']),
                         'x': round(r.random(), 3), 'a': r.choice([1.0, 5.0]),
                         'n': r.randint(2, 20)}
        out.append(s)
    return out


def gen(r):
    q = {'poly': gen_poly(r), 'f': gen_f(r), 'err': int(r.random() < .8)}
    fam = q['f']['fam']
    hard = q['poly'].get('hard')
    g = q['f'].get('add') or q['f']
    if hard and hard['how'] == 'seg' and isinstance(g.get('p'), (float, list)) \
            and g['fam'] in ROUGH:
        g['p'] = ['in', (hard['seg'] + .5) / q['poly']['nk']]
    if fam in SMOOTH and not q['f'].get('add'):
        q['rtol'] = r.choice([None, 1e-14, 1e-12, 1e-11, 1e-10, 1e-8, 1e-6, 1e-4])
    else:
        q['rtol'] = r.choice([None, None, 1e-14, 1e-13, 1e-12, 1e-10])
    if r.random() < .25:
        q['points'] = [round(r.uniform(-1, 1), 4) for _ in range(r.randint(1, 3))]
        if fam in ('jump', 'kink', 'sing', 'log', 'kink2') and r.random() < .8:
            q['points'].append('p')
        if r.random() < .3:
            q['points'] += q['points'][:1]
        if r.random() < .3:
            q['points'] += [-1.0, 1.0, 0.0]
        q['parr'] = int(r.random() < .5)
    k = r.random()
    if k < .5:
        q['script'] = gen_script(r, q)
    elif k < .56:
        q['noise'] = r.choice([1e-15, 1e-12, 1e-9, 1e-6, 1e-2])
        q['nseed'] = r.randrange(1000)
    elif k < .61:
        a = r.uniform(-1, .8)
        q['nanreg'] = [a, a + r.choice([.15, .3, .6])]
        if r.random() < .1:
            q['nanreg'] = [-1, 1]
    elif k < .67:
        s = {'n': r.choice([1, 2, 3, 7, 31, 100, 1000]),
             'do': r.choice(['nan', 'inf', 'complex'])}
        q['every'] = [s]
    if q.get('every') and q['every'][0]['do'] in ('nan', 'inf') or q.get('nanreg') \
            or q.get('noise') or g['fam'] in ('sing', 'log', 'osc', 'jump'):
        # many refinements: few polynomials
        p = q['poly']
        if p['src'] != 'custom' and 'sl' not in p:
            p['sl'] = [0, 3]
    if r.random() < .3:
        q['again'] = 1
    if r.random() < .2:
        q['fpwarn'] = 1
    if r.random() < .2:
        q['amb'] = r.randrange(1 << 20)
    return q


def arm():
    alloc.arm('plain')


def world(r, i, tier, rec):
    qs = [gen(r) for _ in range(12)]

    def body():
        arm()
        out = []
        for q in qs:
            w = {}
            out.append(run_case(q, w) + (w,))
        return out
    st, outs = proc.run(body, 200)
    if st != 'ok':
        if st == 'err' and proc.library_error(outs) is None:
            raise RuntimeError(outs)
        # find out which
        for q in qs:
            v = replay(q)
            rec.n['runs'] += 1
            if v:
                rec.viol.append((v[0], v[1], q))
                return
        return
    for q, (v, s, w) in zip(qs, outs):
        rec.n['runs'] += 1
        rec.n['steps'] += s['calls']
        for x in set(s['fired']):
            rec.n['fault:integrand ' + x] += s['fired'].count(x)
        if q.get('amb'):
            rec.n['fault:clocks and machine changed'] += 1
        for k in ('noise', 'every'):
            if q.get(k):
                rec.n[f'fault:integrand {k}'] += 1
        if q['f'].get('dress') in ('buffer', 'part', 'buffer0'):
            rec.n['fault:integrand reuses buffer'] += 1
        rec.n['with warning'] += bool(s['warn'])
        rec.n['refined'] += bool(s['refined'])
        rec.sets['family, misbehaviour'].add(
            (q['f']['fam'], tuple(sorted(set(s['fired'])))))
        if s['fired'] or s['refined']:
            rec.case(json.dumps(q, sort_keys=True))
        if WORST is not None:
            for k, x in w.items():
                if x > WORST.get(k, (0,))[0]:
                    WORST[k] = (x, q)
        if v:
            rec.viol.append((v[0], f'{json.dumps(q)}: {v[1]}', q))
        elif not rec.samples and s['fired']:
            rec.samples.append({'case': q, 'evaluations': s['calls'],
                                'fired': s['fired'][:5]})


def replay(sc):
    def body():
        arm()
        return run_case(sc)
    st, out = proc.run(body, 200)
    if st == 'err':
        raised = proc.library_error(out)
        if raised is None:
            raise RuntimeError(out)
        return 'raise', f'{json.dumps(sc)}: {raised}'
    if st != 'ok':
        return st, f'process: {st} for {sc}'
    v = out[0]
    return (v[0], f'{json.dumps(sc)}: {v[1]}') if v else None


def shrink(q):
    if len(q.get('script', ())) > 1:
        for s in q['script']:
            yield dict(q, script=[s])
    for k in ('again', 'fpwarn', 'amb', 'points', 'noise', 'every', 'nanreg', 'script'):
        if q.get(k):
            yield {a: b for a, b in q.items() if a != k}
    f = q['f']
    for k in ('dress', 'c', 'add', 'scale'):
        if f.get(k):
            yield dict(q, f={a: b for a, b in f.items() if a != k})
    if f['nf']:
        yield dict(q, f=dict(f, nf=[]))
    if f['fam'] != 'exp':
        yield dict(q, f={'fam': 'exp', 'a': 1.0, 'nf': f['nf'],
                         **({'dress': f['dress']} if 'dress' in f else {})})
    for s in q.get('script', ()):
        if s['at'] != 1:
            yield dict(q, script=[dict(s, at=1)] + q['script'][1:])
    if q['poly'] != {'src': 'F1', 'attr': 'u', 'sl': 0}:
        yield dict(q, poly={'src': 'F1', 'attr': 'u', 'sl': 0})
