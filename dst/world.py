"""Objects and operations of the simulated clients, all described by JSON.

A *world* is a list of recipes ``{"name":..., "t":..., ...}``; each builds one
library object from earlier ones.  An *operation* is ``{"op":..., "on":name,
"p":{...}}``.  Everything below uses the public interface of the library.
"""
import sys
import warnings

import numpy as np

from . import canon


# ------------------------------------------------------------------ arguments

class Ctx:
    """What one operation passed in and got out"""
    def __init__(self):
        self.args = []          # arrays handed to the library
        self.outs = []          # arrays the library handed back
        self.calls = 0
        self.hook = None        # called from user callbacks
        self.pool = None        # arrays shared with other calls
        self.reuse = False      # pool by shape only: buffers are overwritten
        self.watch = None

    def give(self, a):
        if isinstance(a, np.ndarray):
            if self.pool is not None and a.flags.c_contiguous \
                    and a.flags.writeable and a.ndim:
                key = (a.shape, a.dtype.str)
                if not self.reuse:
                    key += (a.tobytes(),)
                b = self.pool.get(key)
                if b is None:
                    self.pool[key] = a
                elif b is not a:
                    # within one call two arguments must not coincide
                    if not any(b is x for x in self.args):
                        if self.reuse:
                            b[...] = a
                        a = b
            self.args.append(a)
            if self.watch is not None:
                self.watch(a)
        return a

    def got(self, r, deep=True):
        if isinstance(r, np.ndarray):
            self.outs.append(r)
        elif isinstance(r, (tuple, list)):
            for x in r:
                self.got(x)
        return r


def enter(ctx):
    """Functions supplied by the user now run on behalf of this call"""
    if 'dst.userkernel' in sys.modules:
        import _thread
        sys.modules['dst.userkernel'].CTX[_thread.get_ident()] = ctx


def _rng(seed):
    return np.random.RandomState(seed)


def _layout(a, lay):
    if lay == 'list':
        return a.tolist()
    if lay == 'scalar':
        return a.ravel()[0].item() if a.size else a
    if lay == '0d':
        return np.array(a.ravel()[0]) if a.size else a
    if lay == 'F':
        return np.asfortranarray(a)
    if lay == 'strided' and a.ndim:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if lay == 'neg' and a.ndim:
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if lay == 'ro':
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


def tweak(a, spec, other):
    """An array nearly the same as ``a``; ``other`` maps to further legal values"""
    how, seed = spec
    if not a.size:
        return a
    r = _rng(400 + seed)
    f = a.ravel().copy()
    if how == 'one':
        i = r.randint(f.size)
        if f.size > 2:
            i = 1 + i % (f.size - 2)
        f[i] = other(f[i])
    elif how == 'some':
        m = r.uniform(size=f.size) < .5
        m[::16] = m[-1] = False
        f[m] = other(f[m])
    elif how == 'last':
        f[-1] = other(f[-1])
    elif how == 'all':
        f = other(f)
    elif how == 'perm':
        f[1:-1] = r.permutation(f[1:-1])
    elif how == 'rev':
        f = f[::-1].copy()
    elif how == 'close' and f.dtype.kind == 'f':
        # towards something legal
        f = f + 10.0**-r.randint(4, 9) * (other(f) - f)
    elif how == 'ulp' and f.dtype.kind == 'f':
        f[0] = np.nextafter(f[0], other(f[0]))
    elif how == 'col' and a.ndim == 1:
        return f[:, None]
    elif how == 'row' and a.ndim == 1:
        return f[None, :]
    return f.reshape(a.shape)


TWEAKS = ['one', 'one', 'some', 'last', 'all', 'perm', 'rev', 'ulp', 'close', 'col', 'row']


def near(r, p):
    """Parameters for nearly the same arguments"""
    if 'part' in p:
        # searches: another part, grid or half of the axis
        k = r.choice(['part', 'g', 'pos'])
        c = {'part': [None, 'real', 'imag'], 'g': [None, 'short', 'few'],
             'pos': [0, 1]}[k]
        return dict(p, **{k: r.choice([x for x in c if x != p[k]])})
    return dict(p, tw=[r.choice(TWEAKS), r.randrange(3)])


def points(ctx, p, lo, hi):
    """Points in [lo, hi]"""
    r = _rng(100 + p.get('s', 0))
    shape = tuple(p.get('sh', (4,)))
    u = r.uniform(size=shape)
    e = p.get('edge', 0)
    if e and u.size:
        f = u.ravel()
        f[0] = 0.0
        if f.size > 1:
            f[-1] = 1.0
        if f.size > 2 and e > 1:
            f[1] = 0.5
        u = f.reshape(shape)
    if p.get('sorted'):
        u = np.sort(u, axis=None).reshape(shape)
    if p.get('clus'):
        u = .4 + 1e-3 * u
    x = lo + (hi - lo) * u
    x = np.clip(x, lo, hi)
    if p.get('tw'):
        x = np.clip(tweak(x, p['tw'], lambda y: lo + (hi - y)), lo, hi)
        if p.get('sorted'):
            x = np.sort(x, axis=None).reshape(x.shape)
    if p.get('bad'):
        x = np.array(x)
        x.ravel()[-1:] = hi + 1.0
    if p.get('dt') == 'f4':
        x = np.clip(x.astype(np.float32), np.float32(lo), np.float32(hi))
        x = np.clip(x.astype(np.float64), lo, hi).astype(np.float32)
        if not ((x >= lo) & (x <= hi)).all():
            x = np.full(x.shape, np.float32(.5 * (lo + hi)))
    return ctx.give(_layout(x, p.get('lay')))


def freqs(ctx, p, zeta):
    """Reduced Matsubara frequencies of parity zeta (None: any)"""
    r = _rng(200 + p.get('s', 0))
    shape = tuple(p.get('sh', (4,)))
    mag = p.get('mag', 'small')
    m = {'small': 6, 'mid': 200, 'big': 30000, 'huge': 10**9}[mag]
    n = r.randint(-m, m + 1, size=shape)
    if mag == 'huge' and p.get('s', 0) % 3 == 0:
        n = n * 1000
    if p.get('pos'):
        n = np.abs(n)
    if mag == 'big' and n.size:
        n.ravel()[0] = r.randint(0, 5)
    if p.get('zero') and n.size:
        n.ravel()[0] = 0
    if p.get('tw'):
        n = tweak(np.asarray(n), p['tw'], lambda y: y + 1)
    if zeta is not None:
        n = 2 * n + zeta
    if p.get('bad'):
        n = np.array(n)
        n.ravel()[-1:] += 1
    n = np.asarray(n, dtype=np.int64)
    if p.get('dt') == 'f8':
        n = n.astype(float)
    if p.get('dt') == 'i4' and mag != 'huge':
        n = n.astype(np.int32)
    return ctx.give(_layout(n, p.get('lay')))


def coeffs(ctx, p, size, axis=None):
    """Coefficient/data array; ``size`` entries along ``axis``"""
    r = _rng(300 + p.get('s', 0))
    extra = list(p.get('ex', ()))
    ax = 0 if axis is None and len(extra) == 0 else axis
    if axis is None:
        # library contract without axis: matrix product
        shape = [size] + extra[:1] if len(extra) <= 1 else \
            extra[:1] + [size] + extra[1:2]
    else:
        a = axis if axis >= 0 else axis + len(extra) + 1
        shape = extra[:a] + [size] + extra[a:]
    del ax
    x = r.normal(size=shape)
    if p.get('c'):
        x = x + 1j * r.normal(size=shape)
    if p.get('decay'):
        w = 10.0 ** (-np.arange(size) / 3.0)
        a = (0 if len(shape) <= 2 else 1) if axis is None else axis
        sh = [1] * len(shape)
        sh[a] = size
        x = x * w.reshape(sh)
    if p.get('tw') and p['tw'][0] not in ('col', 'row'):
        x = tweak(x, p['tw'], lambda y: -1.5 * y)
    return ctx.give(_layout(x, p.get('lay')))


FUNCS = ('exp', 'poly', 'cos', 'vec', 'const', 'pole', 'jump', 'wild')


def userfun(ctx, name, lo, hi):
    """User-supplied integrands"""
    sc = 1.0 / max(abs(lo), abs(hi))

    def f(x):
        ctx.calls += 1
        if ctx.hook is not None:
            r = ctx.hook(x)
            if r is not None:
                return r
        z = float(x) * sc
        if name == 'exp':
            return np.exp(-z)
        if name == 'poly':
            return 1 + z - z**3
        if name == 'cos':
            return np.cos(3 * z)
        if name == 'vec':
            return np.array([1.0, z, z * z])
        if name == 'const':
            return 1
        if name == 'jump':
            return 1.0 if z > .1234 else -.5
        if name == 'wild':
            return np.sin(1e4 * z)
        return 1 / (z - 1.5)
    return f


# -------------------------------------------------------------------- recipes

def lib():
    import sparse_ir
    return sparse_ir


def build(rec, objs):
    """Build the object of a recipe from earlier objects"""
    import sparse_ir
    import sparse_ir.augment as augment
    from . import useraug
    import sparse_ir.adapter as adapter
    import sparse_ir.dlr as dlr
    import sparse_ir.kernel as kernel
    import sparse_ir._gauss as gauss
    t = rec['t']

    def o(key):
        return objs[rec[key]] if rec.get(key) is not None else None
    if t == 'kernel':
        if rec['cls'] in 'UV':
            from . import userkernel
            return {'U': userkernel.UserKernel,
                    'V': userkernel.EvenKernel}[rec['cls']](rec['lam'])
        return {'L': kernel.LogisticKernel,
                'B': kernel.RegularizedBoseKernel}[rec['cls']](rec['lam'])
    if t == 'ksym':
        return o('k').get_symmetrized(rec['sign'])
    if t == 'sve':
        kw = dict(rec.get('kw', {}))
        if kw.get('sve_strat') == 'sampling':
            from sparse_ir.sve import SamplingSVE
            kw['sve_strat'] = SamplingSVE
        if kw.get('work_dtype') == 'f8':
            kw['work_dtype'] = np.float64
        return sparse_ir.compute_sve(o('k'), rec.get('eps'), **kw)
    if t == 'basis':
        return sparse_ir.FiniteTempBasis(
            rec['stat'], rec['beta'], rec['wmax'], rec.get('eps'),
            max_size=rec.get('max_size'), kernel=o('k'), sve_result=o('sve'))
    if t == 'fbases':
        return sparse_ir.finite_temp_bases(
            rec['beta'], rec['wmax'], rec.get('eps'), o('sve'))[rec['i']]
    if t == 'bset':
        return sparse_ir.FiniteTempBasisSet(
            rec['beta'], rec['wmax'], rec.get('eps'), o('sve'))
    if t == 'slice':
        return o('o')[:rec['n']]
    if t == 'rescale':
        return o('o').rescale(rec['beta'])
    if t == 'attr':
        return getattr(o('o'), rec['a'])
    if t == 'item':
        i = rec['i']
        n = o('o').shape[0]
        if isinstance(i, list):
            return o('o')[np.array([j % n for j in i])]
        return o('o')[i % n]
    if t == 'deriv':
        return o('o').deriv(rec['n'])
    if t == 'tau':
        ctx = objs.get('#ctx') or Ctx()
        pts = rec.get('pts')
        if pts is not None:
            b = o('o')
            pts = points(ctx, as_many(pts, b), 0.0, b.beta)
        return sparse_ir.TauSampling(o('o'), pts)
    if t == 'mats':
        ctx = objs.get('#ctx') or Ctx()
        pts = rec.get('pts')
        if pts is not None:
            zeta = {'F': 1, 'B': 0}[rec['stat']]
            pts = freqs(ctx, as_many(pts, o('o')), zeta)
        return sparse_ir.MatsubaraSampling(o('o'), pts,
                                           positive_only=bool(rec.get('pos')))
    if t == 'dlr':
        ctx = objs.get('#ctx') or Ctx()
        pts = rec.get('pts')
        if pts is not None:
            b = o('o')
            pts = points(ctx, as_many(pts, b), -b.wmax, b.wmax)
        return dlr.DiscreteLehmannRepresentation(o('o'), pts)
    if t == 'aug':
        return augment.AugmentedBasis(
            o('o'), *[useraug.make(a, o('o')) for a in rec['augs']])
    if t == 'adapter':
        return adapter.Basis(rec['stat'], rec['lam'], o('sve'))
    if t == 'rule':
        r = gauss.legendre(rec['n'])
        if rec.get('dt') == 'dd':
            from sparse_ir import svd
            r = gauss.legendre(rec['n'], svd.MAX_DTYPE)
        if rec.get('edges'):
            ctx = objs.get('#ctx') or Ctx()
            r = r.piecewise(ctx.give(np.array(rec['edges'], float)))
        return r
    if t == 'upoly':
        return user_poly(objs.get('#ctx') or Ctx(), rec)
    if t == 'uft':
        from sparse_ir import poly
        return poly.PiecewiseLegendreFT(o('o'), rec['freq'], rec.get('asy'))
    raise ValueError(t)


def as_many(pts, b):
    """Possibly exactly as many points as there are functions"""
    return dict(pts, sh=[b.size]) if pts.get('L') else pts


def user_poly(ctx, rec):
    """Piecewise polynomials from the user's own coefficients"""
    from sparse_ir import poly
    r = _rng(900 + rec['s'])
    half = np.sort(r.uniform(.1, .9, rec['seg']))
    knots = np.hstack([-1, -half[::-1], 0, half, 1])
    nf = rec['l']
    data = r.normal(size=(rec['deg'], knots.size - 1, nf))
    if not rec.get('osc'):
        data *= 4.0 ** -np.arange(rec['deg'])[:, None, None]
    kw = {}
    if rec.get('sym'):
        symm = (-1) ** np.arange(nf)
        mirror = data[:, ::-1] * symm * (-1.0) ** np.arange(rec['deg'])[:, None, None]
        data = .5 * (data + mirror)
        kw['symm'] = ctx.give(symm.astype(float))
    knots = ctx.give(knots)
    if rec.get('dx'):
        kw['dx'] = ctx.give(np.diff(knots))
    return poly.PiecewiseLegendrePoly(ctx.give(data), knots, **kw)


def closure(world, names):
    """Recipes needed for ``names``, in order"""
    by = {r['name']: r for r in world}
    need = set()

    def add(n):
        if n is None or n in need or n not in by:
            return
        need.add(n)
        for key in ('k', 'sve', 'o'):
            v = by[n].get(key)
            if isinstance(v, str):
                add(v)
    for n in names:
        add(n)
    return [r for r in world if r['name'] in need]


def kind_of(rec, by):
    """Static kind of the object built by a recipe, and its statistics"""
    t = rec['t']
    if t in ('kernel', 'ksym', 'sve', 'bset', 'dlr', 'rule'):
        return t
    if t in ('basis', 'fbases', 'rescale'):
        return 'basis'
    if t == 'adapter':
        return 'adapter'
    if t in ('tau', 'mats'):
        return 'samp'
    if t == 'aug':
        return 'aug'
    if t == 'upoly':
        return 'poly1'
    if t == 'uft':
        return 'ft1'
    if t == 'slice':
        return kind_of(by[rec['o']], by)
    if t == 'deriv':
        return kind_of(by[rec['o']], by)
    if t == 'item':
        k = kind_of(by[rec['o']], by)
        if isinstance(rec['i'], list):
            return k
        return {'poly1': 'poly0', 'ft1': 'ft0'}[k]
    if t == 'attr':
        a = rec['a']
        k = kind_of(by[rec['o']], by)
        if a in ('u', 'v') and k in ('basis', 'sve'):
            return 'poly1'
        if a == 'uhat' and k == 'basis':
            return 'ft1'
        if a in ('u', 'uhat'):
            return {'aug': 'augfun', 'dlr': 'polefun'}[k]
        if a == 'matrix':
            return 'matrix'
        if a.startswith('smpl_'):
            return 'samp'
        if a.startswith('basis'):
            return 'basis'
        if a == 'kernel':
            return 'kernel'
        if a == 'sve_result':
            return 'sve'
    raise ValueError(rec)


def stat_of(rec, by):
    if 'stat' in rec:
        return rec['stat']
    if rec['t'] == 'fbases':
        return 'FB'[rec['i']]
    if rec['t'] == 'attr' and rec['a'][-2:] in ('_f', '_b'):
        return rec['a'][-1].upper()
    for key in ('o',):
        if rec.get(key):
            return stat_of(by[rec[key]], by)
    return None


def zeta_of(rec, by):
    return {'F': 1, 'B': 0, None: None}[stat_of(rec, by)]


# ------------------------------------------------------------------ operations

OPS = {}
BY_KIND = {}


class Op:
    def __init__(self, name, kinds, weight, gen, run):
        self.name, self.kinds, self.weight = name, kinds, weight
        self.gen, self.run = gen, run


def op(name, kinds, weight=1.0, gen=None):
    def deco(fn):
        x = Op(name, kinds.split(), weight, gen or (lambda r, w: {}), fn)
        OPS[name] = x
        for k in x.kinds:
            BY_KIND.setdefault(k, []).append(x)
        return fn
    return deco


def _sh(r):
    if r.random() < .07:
        # large, also just around likely block sizes
        if r.random() < .5:
            return r.choice([[300], [1100], [2100], [33, 37]])
        return [r.randint(1, 4) * r.choice([100, 128, 256, 500, 512, 1000, 1024])
                + r.choice([-1, 0, 1])]
    return r.choice([[], [1], [3], [3], [7], [2, 3], [40], [0]])


def g_points(r, w):
    p = {'s': r.randrange(4), 'sh': _sh(r)}
    if r.random() < .5:
        p['edge'] = r.randrange(3)
    if r.random() < .25:
        p['lay'] = r.choice(['list', 'strided', 'F', 'neg', 'scalar', '0d', 'ro'])
    if r.random() < .1:
        p['dt'] = 'f4'
    if r.random() < .04:
        p['bad'] = 1
    return p


def g_freqs(r, w):
    p = {'s': r.randrange(4), 'sh': _sh(r),
         'mag': r.choice(['small', 'small', 'mid', 'big', 'huge'])}
    if r.random() < .2:
        p['lay'] = r.choice(['list', 'strided', 'F', 'neg', 'scalar', '0d', 'ro'])
    if r.random() < .1:
        p['dt'] = r.choice(['f8', 'i4'])
    if r.random() < .2:
        p['zero'] = 1
    if r.random() < .04:
        p['bad'] = 1
    return p


def g_coeffs(r, w):
    p = {'s': r.randrange(4), 'c': r.randrange(2)}
    ex = r.choice([[], [], [2], [3], [2, 3], [1], [2, 2, 2]])
    if r.random() < .05:
        ex = r.choice([[150], [600], [2500], [31, 37]])
    p['ex'] = ex
    if r.random() < .7:
        p['axis'] = r.randint(-len(ex) - 1, len(ex))
    elif len(ex) > 2:
        p['ex'] = ex[:2]
    if r.random() < .2:
        p['lay'] = r.choice(['list', 'strided', 'F', 'neg', 'ro'])
    if p.get('lay') == 'list' and 'axis' not in p:
        del p['lay']
    if r.random() < .5:
        p['decay'] = 1
    return p


def g_smpl(r, w):
    p = g_coeffs(r, w)
    if r.random() < .3:
        p['pts'] = g_samp_points(r)
    return p


def g_samp_points(r):
    return {'s': r.randrange(3), 'n': r.choice(['L', 'L+3', '2L'])}


def _npts(spec, L):
    return {'L': L, 'L+3': L + 3, '2L': 2 * L}[spec]


# ---- piecewise polynomials

@op('call', 'poly1 poly0', 4, g_points)
def _(c, f, p, z):
    return c.got(f(points(c, p, f.xmin, f.xmax)))


def g_value(r, w):
    p = g_points(r, w)
    p.pop('dt', None)
    p['l'] = r.randrange(6)
    p['lv'] = r.randrange(2)
    p['sh'] = r.choice([[], [3], [5]])
    return p


@op('value', 'poly1', 2, g_value)
def _(c, f, p, z):
    x = points(c, p, f.xmin, f.xmax)
    n = f.shape[0]
    l = p['l'] % n
    if p['lv']:
        xs = np.asarray(x)
        l = c.give(np.array([(p['l'] + i) % n for i in range(3)]))
        if xs.shape not in ((), (3,)):
            x = xs.ravel()[0]
    return c.got(f.value(l, x))


def g_item(r, w):
    p = g_points(r, w)
    p['i'] = r.choice([0, 1, 2, 3, -1, -2, 5])
    return p


@op('item', 'poly1', 2, g_item)
def _(c, f, p, z):
    n = f.shape[0]
    i = p['i'] % n if p['i'] >= 0 else -((-p['i'] - 1) % n) - 1
    g = f[i]
    return c.got(g(points(c, p, f.xmin, f.xmax))), g.shape, g.ndim, g.symm


def g_slice(r, w):
    p = g_points(r, w)
    p['i'] = r.randint(1, 6)
    p['k'] = r.randrange(3)
    return p


@op('slices', 'poly1', 1.5, g_slice)
def _(c, f, p, z):
    n = f.shape[0]
    k = min(p['i'], n)
    g = f[:k] if p['k'] == 0 else f[k - 1:] if p['k'] == 1 else \
        f[np.array([0, k - 1, n - 1])]
    return c.got(g(points(c, p, f.xmin, f.xmax))), g.shape, g.size


def g_deriv(r, w):
    p = g_points(r, w)
    p['d'] = r.randint(1, 3)
    return p


@op('deriv', 'poly1 poly0', 2, g_deriv)
def _(c, f, p, z):
    g = f.deriv(p['d'])
    return c.got(g(points(c, p, f.xmin, f.xmax))), g.symm


@op('roots', 'poly0', 2, lambda r, w: {'a': r.choice([1, 2, 2, 3])})
def _(c, f, p, z):
    return c.got(f.roots(p['a']))


def g_overlap(r, w):
    p = {'f': r.choice(FUNCS), 'rtol': r.choice([1e-3, 1e-8]),
         'err': r.randrange(2)}
    if r.random() < .4:
        p['pts'] = {'s': r.randrange(3), 'sh': [2], 'sorted': 1}
    return p


@op('overlap', 'poly0 poly1', .6, g_overlap)
def _(c, f, p, z):
    pts = p.get('pts')
    if pts is not None:
        pts = points(c, pts, f.xmin, f.xmax)
    g = userfun(c, p['f'], f.xmin, f.xmax)
    if f.ndim and f.shape[0] > 3:
        f = f[:3]
    return c.got(f.overlap(g, rtol=p['rtol'], return_error=bool(p['err']),
                           points=pts))


@op('polyattrs', 'poly1 poly0', .7)
def _(c, f, p, z):
    return probe_poly(f)


def probe_poly(f):
    return (f.xmin, f.xmax, f.knots, f.dx, f.data, f.symm, f.shape, f.size, f.ndim)


# ---- Fourier transforms

@op('fcall', 'ft1 ft0', 5, g_freqs)
def _(c, f, p, z):
    return c.got(f(freqs(c, p, f.zeta)))


def g_fitem(r, w):
    p = g_freqs(r, w)
    p['i'] = r.choice([0, 1, 2, 3, -1, -2, 5])
    return p


@op('fitem', 'ft1', 3, g_fitem)
def _(c, f, p, z):
    n = f.shape[0]
    i = p['i'] % n if p['i'] >= 0 else -((-p['i'] - 1) % n) - 1
    g = f[i]
    return c.got(g(freqs(c, p, f.zeta))), g.shape


def g_fslice(r, w):
    p = g_freqs(r, w)
    p['i'] = r.randint(1, 6)
    return p


@op('fslice', 'ft1', 1.5, g_fslice)
def _(c, f, p, z):
    g = f[:min(p['i'], f.shape[0])]
    return c.got(g(freqs(c, p, f.zeta))), g.shape, g.size


GRIDS = [None, None, 'short', 'few']


def g_ext(r, w):
    return {'pos': r.randrange(2), 'part': r.choice([None, None, 'real', 'imag']),
            'g': r.choice(GRIDS)}


def _grid(c, p):
    g = p.get('g')
    if g is None:
        return None
    return c.give(np.hstack([np.arange(40), 40 + 7 * np.arange(30)])
                  if g == 'short' else np.array([0, 1, 2, 3, 5, 9]))


@op('extrema', 'ft0', 1.5, g_ext)
def _(c, f, p, z):
    return c.got(f.extrema(part=p['part'], grid=_grid(c, p),
                           positive_only=bool(p['pos'])))


@op('sign_changes', 'ft0', 1.5, g_ext)
def _(c, f, p, z):
    return c.got(f.sign_changes(part=p['part'], grid=_grid(c, p),
                                positive_only=bool(p['pos'])))


@op('bound', 'ft1', 1, lambda r, w: {'a': g_freqs(r, w), 'b': g_freqs(r, w)})
def _(c, f, p, z):
    """Keep the bound function around and call it later"""
    call = f.__call__
    first = c.got(f(freqs(c, p['a'], f.zeta)))
    return first, c.got(call(freqs(c, p['b'], f.zeta)))


# ---- bases

def probe_basis(b):
    return {'size': b.size, 'shape': b.shape, 's': b.s, 'sig': b.significance,
            'acc': b.accuracy, 'beta': b.beta, 'wmax': b.wmax,
            'lam': b.lambda_, 'stat': b.statistics, 'well': b.is_well_conditioned,
            'u': probe_poly(b.u), 'v': probe_poly(b.v),
            'uhat': b.uhat(np.array([0, 2, 10, 10**7]) + {'F': 1, 'B': 0}[b.statistics]),
            'far': b.uhat(np.array([10**9, -10**11]) + {'F': 1, 'B': 0}[b.statistics]),
            'klam': b.kernel.lambda_}


@op('probe', 'basis', 2)
def _(c, b, p, z):
    return probe_basis(b)


def g_np(r, w):
    return {'np': r.choice([None, None, 1, 3, 4, 6, 9]), 'pos': r.randrange(2)}


@op('deftau', 'basis aug', 1.5, g_np)
def _(c, b, p, z):
    k = {} if p['np'] is None else {'npoints': p['np']}
    return c.got(b.default_tau_sampling_points(**k))


@op('defmats', 'basis aug dlr', 1.5, g_np)
def _(c, b, p, z):
    k = {} if p['np'] is None else {'npoints': p['np']}
    return c.got(b.default_matsubara_sampling_points(
        positive_only=bool(p['pos']), **k))


@op('defomega', 'basis', 1.5, g_np)
def _(c, b, p, z):
    k = {} if p['np'] is None else {'npoints': p['np']}
    return c.got(b.default_omega_sampling_points(**k))


@op('cut', 'basis', 1, lambda r, w: {'n': r.randint(1, 8)})
def _(c, b, p, z):
    return probe_basis(b[:min(p['n'], b.size)])


@op('resc', 'basis', 1, lambda r, w: {'beta': r.choice([.5, 1, 2, 10, 20])})
def _(c, b, p, z):
    return probe_basis(b.rescale(p['beta']))


@op('gtau', 'basis', 1, lambda r, w: {'x': g_points(r, w), 'y': g_points(r, w)})
def _(c, b, p, z):
    x = np.atleast_1d(np.asarray(points(c, p['x'], 0, b.beta))).ravel()
    y = np.atleast_1d(np.asarray(points(c, p['y'], -b.wmax, b.wmax))).ravel()
    return c.got(np.einsum('lx,l,ly->xy', b.u(x), b.s, b.v(y)))


@op('mksamp', 'basis dlr aug', 1,
    lambda r, w: {'k': r.choice(['tau', 'mats', 'pos'])})
def _(c, b, p, z):
    import sparse_ir
    if p['k'] == 'tau':
        s = sparse_ir.TauSampling(b)
    else:
        s = sparse_ir.MatsubaraSampling(b, positive_only=p['k'] == 'pos')
    return probe_samp(s)


@op('mkdlr', 'basis', .6)
def _(c, b, p, z):
    from sparse_ir.dlr import DiscreteLehmannRepresentation
    return probe_dlr(DiscreteLehmannRepresentation(b))


# ---- sampling

def probe_samp(s):
    m = s.matrix
    out = {'x': s.sampling_points, 'a': m.a, 's': m.s, 'u': m.u, 'vH': m.vH,
           'cond': s.cond, 'size': s.basis.size}
    if hasattr(s, 'positive_only'):
        out.update(pos=s.positive_only, wn=s.wn)
    else:
        out['tau'] = s.tau
    return out


@op('probe', 'samp', 1)
def _(c, s, p, z):
    return probe_samp(s)


def probe_any(o, k):
    if k == 'basis':
        return probe_basis(o)
    if k == 'samp':
        return probe_samp(o)
    if k == 'dlr':
        return probe_dlr(o)
    if k in ('poly1', 'poly0'):
        return probe_poly(o)
    if k == 'sve':
        return probe_sve(o)
    if k == 'aug':
        return probe_aug(o)
    if k == 'bset':
        return probe_bset(o)
    if k == 'adapter':
        return probe_adapter(o)
    if k in ('ft1', 'ft0'):
        return (o.shape, o.size, o.ndim, o.zeta,
                o(np.array([0, 2, -4, 10, 10**7]) + (o.zeta or 0)))
    if k == 'kernel':
        x = np.linspace(-1, 1, 7)
        return (o.lambda_, o(x[:, None], x[None, :]), o.ypower, o.conv_radius)
    if k == 'ksym':
        x = np.linspace(0, 1, 7)
        return (o(x[:, None], x[None, :], x[:, None], 1 - x[:, None]), o.ypower)
    if k == 'matrix':
        return (o.a, o.s, o.u, o.vH, o.cond)
    if k == 'augfun':
        if hasattr(o, 'zeta'):
            return (o.size, o.shape, o(np.array([0, 2, 10, 1000]) + o.zeta))
        return (o.size, o.shape, o(np.array([0.0, .3, .5])))
    if k == 'polefun':
        return ('pole', o(np.array([0.0, 0.2])) if type(o).__name__.startswith('Tau')
                else o(np.array([1, 3])))
    if k == 'rule':
        return probe_rule(o)
    raise ValueError(k)


def _smpts(c, p, s, z):
    spec = p.get('pts')
    if spec is None:
        return None
    L = _npts(spec['n'], s.basis.size)
    r = _rng(400 + spec['s'])
    if z == 'tau':
        x = np.sort(r.uniform(size=L)) * s.basis.beta
        return c.give(np.clip(x, 0, s.basis.beta))
    st = {'F': 1, 'B': 0}[z[1]]
    if z[2]:
        n = np.unique(np.hstack([np.arange(L // 2 + 2), r.randint(0, 300, L)]))
    else:
        m = np.unique(np.hstack([np.arange(L // 2 + 2), r.randint(0, 300, L)]))
        n = np.unique(np.hstack([m, -m - st]))
    n = 2 * n + st
    if spec['s'] == 1:
        n = r.permutation(n)
    return c.give(n)


def samp_info(rec, by):
    """'tau' or ('mats', statistics, positive only)"""
    if rec['t'] == 'tau':
        return 'tau'
    if rec['t'] == 'mats':
        return ('mats', stat_of(rec, by), bool(rec.get('pos')))
    if rec['t'] == 'attr' and '_tau' in rec['a']:
        return 'tau'
    if rec['t'] == 'attr':
        return ('mats', stat_of(rec, by), False)
    return None


@op('evaluate', 'samp', 5, g_smpl)
def _(c, s, p, z):
    kw = {}
    pts = _smpts(c, p, s, z)
    if pts is not None:
        kw['points'] = pts
    ax = p.get('axis')
    al = coeffs(c, p, s.basis.size, ax)
    if ax is None:
        return c.got(s.evaluate(al, **kw))
    return c.got(s.evaluate(al, ax, **kw))


@op('fit', 'samp', 5, g_smpl)
def _(c, s, p, z):
    kw = {}
    pts = _smpts(c, p, s, z)
    n = s.sampling_points.size
    if pts is not None:
        kw['points'] = pts
        n = np.asarray(pts).size
    ax = p.get('axis')
    q = dict(p)
    q.pop('decay', None)
    if z != 'tau' and z[2]:
        q['c'] = 1
        if q.get('lay') == 'list':
            q.pop('lay')
    al = coeffs(c, q, n, ax)
    if ax is None:
        return c.got(s.fit(al, **kw))
    return c.got(s.fit(al, axis=ax, **kw))


@op('badshape', 'samp', .3, lambda r, w: {'s': r.randrange(3), 'k': r.randrange(3)})
def _(c, s, p, z):
    al = coeffs(c, {'s': p['s'], 'c': 1}, s.basis.size + 1)
    if p['k'] == 0:
        return s.evaluate(al)
    if p['k'] == 1:
        return s.fit(coeffs(c, {'c': 1}, s.sampling_points.size + 1))
    return s.evaluate(al, axis=5)


@op('mat', 'matrix', 2, g_coeffs)
def _(c, m, p, z):
    n, L = m.a.shape
    ax = p.get('axis')
    q = dict(p)
    if q.get('lay') == 'list':
        q.pop('lay')
    x = coeffs(c, q, L, ax)
    y = coeffs(c, dict(q, c=1), n, ax)
    r = [c.got(m.matmul(x, ax)), c.got(m.lstsq(y, ax))]
    if ax is None:
        r.append(c.got(m @ x))
    return r


@op('matattrs', 'matrix', 1)
def _(c, m, p, z):
    return m.a, m.s, m.u, m.vH, m.cond, np.asarray(m)


# ---- pole representation

def probe_dlr(d):
    z = {'F': 1, 'B': 0}[d.statistics]
    m = d.matrix
    return {'p': d.sampling_points, 'size': d.size, 'a': m.a, 's': m.s,
            'u': d.u(np.array([0, .25, 1.0]) * d.beta),
            'uhat': d.uhat(np.array([0, 2, 10, 10**5]) + (z or 2)),
            'fit': d.from_IR(np.ones(d.basis.size)), 'acc': d.accuracy,
            'beta': d.beta, 'wmax': d.wmax, 'well': d.is_well_conditioned}


@op('probe', 'dlr', 1)
def _(c, d, p, z):
    return probe_dlr(d)


@op('dlr_u', 'dlr', 2, g_points)
def _(c, d, p, z):
    return c.got(d.u(points(c, p, 0, d.beta)))


def g_pfreqs(r, w):
    p = g_freqs(r, w)
    p.pop('zero', None)
    p.pop('bad', None)
    if p.get('lay') in ('list', 'scalar'):
        p.pop('lay')
    return p


@op('dlr_uhat', 'dlr', 2, g_pfreqs)
def _(c, d, p, z):
    n = np.asarray(freqs(c, p, {'F': 1, 'B': 0}[d.statistics]))
    n = c.give(np.where(n == 0, 2, n))
    return c.got(d.uhat(n))


@op('from_IR', 'dlr', 2, g_coeffs)
def _(c, d, p, z):
    ax = p.get('axis', 0)
    al = coeffs(c, dict(p, lay=None), d.basis.size, ax)
    return c.got(d.from_IR(al, ax))


@op('to_IR', 'dlr', 2, g_coeffs)
def _(c, d, p, z):
    ax = p.get('axis', 0)
    al = coeffs(c, dict(p, lay=None), d.size, ax)
    return c.got(d.to_IR(al, ax))


@op('dlrtau', 'dlr', 1)
def _(c, d, p, z):
    return c.got(d.default_tau_sampling_points())


# ---- augmented bases

def probe_aug(b):
    return {'size': b.size, 'shape': b.shape, 'acc': b.accuracy, 'beta': b.beta,
            'wmax': b.wmax, 'lam': b.lambda_, 'well': b.is_well_conditioned,
            'u': b.u(np.array([0, .25, .6]) * b.beta),
            'uhat': b.uhat(np.array([0, 2, 10, 1000]) + b.uhat.zeta),
            'far': b.uhat(np.array([10**9, -10**11]) + b.uhat.zeta)}


@op('probe', 'aug', 1)
def _(c, b, p, z):
    return probe_aug(b)


@op('aug_u', 'aug', 2, g_points)
def _(c, b, p, z):
    return c.got(b.u(points(c, p, 0, b.beta)))


@op('aug_uhat', 'aug', 2, g_freqs)
def _(c, b, p, z):
    return c.got(b.uhat(freqs(c, p, b.uhat.zeta)))


@op('aug_item', 'aug', 1, lambda r, w: {'i': r.randrange(5), 'x': g_points(r, w)})
def _(c, b, p, z):
    return c.got(b.u[p['i'] % b.size](points(c, p['x'], 0, b.beta)))


@op('aug_cut', 'aug', 1, lambda r, w: {'n': r.randint(3, 8)})
def _(c, b, p, z):
    return probe_aug(b[:p['n']])


# ---- kernels

@op('kcall', 'kernel', 3,
    lambda r, w: {'x': g_points(r, w), 'y': g_points(r, w), 'pm': r.randrange(2)})
def _(c, k, p, z):
    px, py = dict(p['x']), dict(p['y'])
    px['sh'] = [4] if len(px['sh']) > 1 else px['sh']
    py['sh'] = px['sh']
    x = np.asarray(points(c, dict(px, dt=None), -1, 1))
    y = np.asarray(points(c, dict(py, dt=None), -1, 1))
    if p['pm'] and not px.get('bad'):
        return c.got(k(x, y, c.give(np.asarray(1 + x)), c.give(np.asarray(1 - x))))
    return c.got(k(x, y))


@op('kouter', 'kernel ksym', 2,
    lambda r, w: {'x': r.randrange(4), 'y': r.randrange(4), 'n': r.choice([1, 5, 16])})
def _(c, k, p, z):
    xmin, xmax = k.xrange
    ymin, ymax = k.yrange
    x = points(c, {'s': p['x'], 'sh': [p['n'], 1], 'edge': 1}, xmin, xmax)
    y = points(c, {'s': p['y'], 'sh': [1, p['n'] + 1], 'edge': 2}, ymin, ymax)
    return c.got(k(x, y, c.give(x - xmin), c.give(xmax - x)))


@op('hints', 'kernel ksym', 1, lambda r, w: {'eps': r.choice([1e-5, 1e-8, 1e-12])})
def _(c, k, p, z):
    h = k.sve_hints(p['eps'])
    return (c.got(h.segments_x), c.got(h.segments_y), h.ngauss, h.nsvals)


@op('weight', 'kernel', .7,
    lambda r, w: {'stat': r.choice('FFBBX'), 'x': r.randrange(4)})
def _(c, k, p, z):
    y = points(c, {'s': p['x'], 'sh': [5]}, .1, 1)
    return c.got(k.weight_func(p['stat'])(y))


@op('kattrs', 'kernel ksym', .5)
def _(c, k, p, z):
    return (k.xrange, k.yrange, k.is_centrosymmetric, k.ypower, k.conv_radius)


@op('kgauss', 'kernel ksym', 1, lambda r, w: {'n': r.choice([4, 8])})
def _(c, k, p, z):
    from sparse_ir import _gauss
    from sparse_ir.kernel import matrix_from_gauss
    h = k.sve_hints(1e-5)
    gx = _gauss.legendre(p['n']).piecewise(h.segments_x)
    gy = _gauss.legendre(p['n']).piecewise(h.segments_y)
    return c.got(matrix_from_gauss(k, gx, gy))


def g_sve(r, w):
    return {'eps': r.choice([1e-3, 1e-5, 1e-7]),
            'nsv': r.choice([None, None, None, 4, 7]),
            'strat': r.choice([None, None, None, 'default', 'accurate'])}


@op('sve', 'kernel', .5, g_sve)
def _(c, k, p, z):
    import sparse_ir
    kw = {}
    if p['nsv']:
        kw['n_sv'] = p['nsv']
    if p['strat']:
        kw['svd_strat'] = p['strat']
    return probe_sve(sparse_ir.compute_sve(k, p['eps'], **kw))


# ---- singular value expansion

def probe_sve(s):
    u, sv, v = s
    return {'u': probe_poly(u), 's': sv, 'v': probe_poly(v), 'eps': s.eps}


@op('probe', 'sve', 1)
def _(c, s, p, z):
    return probe_sve(s)


@op('part', 'sve', 2, lambda r, w: {'eps': r.choice([None, 1e-2, 1e-4, 1e-6]),
                                    'n': r.choice([None, 2, 5, 100])})
def _(c, s, p, z):
    u, sv, v = s.part(p['eps'], p['n'])
    return probe_poly(u), sv, probe_poly(v)


@op('frombasis', 'sve', 1.0, lambda r, w: {'stat': r.choice('FB'),
                                           'beta': r.choice([1, 2, 10]),
                                           'eps': r.choice([1e-2, 1e-4, 1e-6]),
                                           'n': r.choice([None, 4])})
def _(c, s, p, z):
    import sparse_ir
    lam = s.K.lambda_
    return probe_basis(sparse_ir.FiniteTempBasis(
        p['stat'], p['beta'], lam / p['beta'], p['eps'], max_size=p['n'],
        kernel=s.K, sve_result=s))


# ---- basis sets

def probe_bset(b):
    return {'l': b.lambda_, 'beta': b.beta, 'wmax': b.wmax, 'acc': b.accuracy,
            'tau': b.tau, 'wf': b.wn_f, 'wb': b.wn_b,
            'f': probe_basis(b.basis_f), 'b': probe_basis(b.basis_b),
            'tf': probe_samp(b.smpl_tau_f), 'tb': probe_samp(b.smpl_tau_b),
            'mf': probe_samp(b.smpl_wn_f), 'mb': probe_samp(b.smpl_wn_b)}


@op('probe', 'bset', 1)
def _(c, b, p, z):
    return probe_bset(b)


@op('bsetev', 'bset', 2, lambda r, w: dict(g_coeffs(r, w), w=r.choice(
    ['smpl_tau_f', 'smpl_tau_b', 'smpl_wn_f', 'smpl_wn_b'])))
def _(c, b, p, z):
    s = getattr(b, p['w'])
    ax = p.get('axis', 0)
    al = coeffs(c, dict(p, lay=None), s.basis.size, ax)
    y = c.got(s.evaluate(al, ax))
    return y, c.got(s.fit(y, ax))


# ---- irbasis-compatible interface

def probe_adapter(b):
    x = np.linspace(-1, 1, 9)
    return {'dim': b.dim(), 's': b.sl(), 'u': b.ulx(None, x), 'v': b.vly(None, x),
            'n': b.compute_unl(np.array([0, 1, 5, 10**6])), 'L': b.Lambda,
            'ex': b.section_edges_x, 'ey': b.section_edges_y,
            'nx': b.num_sections_x(), 'ny': b.num_sections_y()}


@op('ad_pts', 'adapter', 0, lambda r, w: {'l': r.choice([1, 2, 3, 4]),
                                          'y': r.randrange(2)})
def _(c, b, p, z):
    # ten thousand evaluations: only where somebody asks for it
    f = b.sampling_points_y if p['y'] else b.sampling_points_x
    return c.got(f(p['l'] % b.dim()))


@op('probe', 'adapter', 1)
def _(c, b, p, z):
    return probe_adapter(b)


@op('ad_val', 'adapter', 2, lambda r, w: {
    'l': r.choice([None, 0, 1, 2, 3]), 'x': dict(g_points(r, w), dt=None),
    'w': r.choice(['ulx', 'vly', 'd_ulx', 'd_vly']), 'o': r.randint(1, 2)})
def _(c, b, p, z):
    x = points(c, p['x'], -1, 1)
    l = p['l'] if p['l'] is None else p['l'] % b.dim()
    if p['w'] in ('ulx', 'vly'):
        return c.got(getattr(b, p['w'])(l, x))
    return c.got(getattr(b, p['w'])(l, x, p['o']))


@op('ad_unl', 'adapter', 2, lambda r, w: {
    'l': r.choice([None, 0, 1, 2]), 'n': dict(g_freqs(r, w), dt=None, bad=0)})
def _(c, b, p, z):
    l = p['l'] if p['l'] is None else p['l'] % b.dim()
    return c.got(b.compute_unl(freqs(c, p['n'], None), l))


@op('ad_mats', 'adapter', .5, lambda r, w: {'l': r.choice([1, 2, 3, 4])})
def _(c, b, p, z):
    return c.got(b.sampling_points_matsubara(p['l'] % b.dim()))


# ---- quadrature

def probe_rule(g):
    return (g.x, g.w, g.x_forward, g.x_backward, g.a, g.b)


@op('rules', 'rule', 1, lambda r, w: {'a': r.choice([-2, 0, .5]),
                                      'f': r.choice([.5, 3.0])})
def _(c, g, p, z):
    return (probe_rule(g.reseat(p['a'], p['a'] + 2)), probe_rule(g.scale(p['f'])),
            probe_rule(g))


@op('nested', 'rule', .5, lambda r, w: {'a': r.choice([-2, 0, .5]),
                                        'f': r.choice([.5, 3.0])})
def _(c, g, p, z):
    from sparse_ir import _gauss
    k = _gauss.kronrod_31_15()
    out = []
    for q in (k, k.reseat(p['a'], p['a'] + 2), k.scale(p['f']), k.astype('f4')):
        out += [probe_rule(q), q.v, q.vsel]
    return out, probe_rule(g.astype('f4'))


@op('recur', 'rule', .7, lambda r, w: {'n': r.choice([2, 5, 12]),
                                       'b0': r.choice([0., 2., 1.]),
                                       'jac': r.choice([0, .3])})
def _(c, g, p, z):
    """Gauss rules from the user's own recurrence coefficients"""
    from sparse_ir import _gauss
    k = np.arange(p['n'], dtype=float)
    beta = (k + p['jac'])**2 / (4 * (k + p['jac'])**2 - 1)
    beta[0] = p['b0']
    return c.got(probe_rule(_gauss.rule_from_recurrence(
        c.give(np.zeros(p['n'])), c.give(beta), -1.0, 1.0)))


@op('collo', 'rule', 1, lambda r, w: {'n': r.choice([None, 4])})
def _(c, g, p, z):
    from sparse_ir import _gauss
    return c.got(_gauss.legendre_collocation(g, p['n']))


@op('mkrule', 'rule kernel', 1, lambda r, w: {'n': r.choice([2, 4, 10, 16]),
                                              'e': r.randrange(3)})
def _(c, g, p, z):
    from sparse_ir import _gauss
    r = _gauss.legendre(p['n'])
    e = c.give(np.array([-1, -.5, .2, 1][p['e']:], float))
    return probe_rule(r), probe_rule(r.piecewise(e))


@op('svd', 'rule kernel', .7, lambda r, w: {
    's': r.randrange(3), 'm': r.choice([5, 30]), 'n': r.choice([4, 20]),
    'st': r.choice(['fast', 'default', 'accurate', 'bad']),
    'h': r.choice([None, 3, 100])})
def _(c, g, p, z):
    from sparse_ir import svd
    r = _rng(500 + p['s'])
    a = r.normal(size=(p['m'], p['n'])) * 10.0 ** (-np.arange(p['n']) / 2)
    u, s, v = svd.compute(c.give(a), p['h'], p['st'])
    return u, s, v


# ------------------------------------------------------------------ execution

def run_op(objs, o, world_by, ctx=None):
    """Execute one operation, returning its raw result"""
    if ctx is None:
        ctx = Ctx()
    rec = world_by[o['on']]
    x = OPS_KIND[(o['op'], kind_of(rec, world_by))]
    z = samp_info(rec, world_by) or zeta_of(rec, world_by)
    return x.run(ctx, objs[o['on']], o['p'], z)


OPS_KIND = {}
for _k, _lst in BY_KIND.items():
    for _x in _lst:
        OPS_KIND[(_x.name, _k)] = _x


def gen_op(r, world, names=None, kinds=None, by=None):
    """Random operation on a random object"""
    by = by or {x['name']: x for x in world}
    cand = [x for x in world if (names is None or x['name'] in names)]
    if kinds:
        c2 = [x for x in cand if kind_of(x, by) in kinds]
        cand = c2 or cand
    cand = [x for x in cand if BY_KIND.get(kind_of(x, by))]
    if HOT and r.random() < .5:
        hot = [x for x in cand if any((y.name, kind_of(x, by)) in HOT
                                      for y in BY_KIND[kind_of(x, by)])]
        if hot:
            rec = r.choice(hot)
            k = kind_of(rec, by)
            x = r.choice([y for y in BY_KIND[k] if (y.name, k) in HOT
                          and y.weight] or BY_KIND[k][:1])
            return {'op': x.name, 'on': rec['name'], 'p': x.gen(r, world)}
    if r.random() < .35:
        # rare kinds of objects, too
        have = sorted({kind_of(x, by) for x in cand})
        k = r.choice(have)
        cand = [x for x in cand if kind_of(x, by) == k]
    rec = r.choice(cand)
    k = kind_of(rec, by)
    ops = BY_KIND[k]
    x = r.choices(ops, [y.weight for y in ops])[0]
    return {'op': x.name, 'on': rec['name'], 'p': x.gen(r, world)}


def even_op(r, world, by):
    """Random operation, each kind of object and each operation on it about as
    often as any other; operations touching mutable state preferred"""
    have = {}
    for x in world:
        k = kind_of(x, by)
        if BY_KIND.get(k):
            have.setdefault(k, []).append(x['name'])
    pairs = [(x, k) for k in sorted(have) for x in BY_KIND[k] if x.weight]
    hot = [(x, k) for x, k in pairs if (x.name, k) in HOT]
    x, k = r.choice(hot if hot and r.random() < .6 else pairs)
    return {'op': x.name, 'on': r.choice(have[k]), 'p': x.gen(r, world)}


# (operation, kind) and recipes seen to touch state kept between calls: see hot.py
HOT = set()
HOT_REC = set()

# how to come by an object of a kind (or recipe)
MAKES = {'kernel': ['kernel'], 'ksym': ['ksym'], 'sve': ['sve', 'sib'],
         'basis': ['basis', 'slice', 'rescale', 'sib', 'fbases'], 'bset': ['bset'],
         'poly1': ['u', 'v', 'deriv', 'upoly'], 'poly0': ['item', 'poly0'], 'ft1': ['uhat', 'uft'],
         'ft0': ['ft0'], 'samp': ['samp', 'sib'], 'tau': ['samp'],
         'mats': ['samp'], 'matrix': ['matrix'], 'dlr': ['dlr'], 'aug': ['aug'],
         'adapter': ['adapter'], 'rule': ['rule'], 'slice': ['slice'],
         'rescale': ['rescale'], 'item': ['item'], 'deriv': ['deriv'],
         'fbases': ['fbases'], 'upoly': ['upoly'], 'uft': ['uft']}

# ------------------------------------------------------------ world generation

# deliberately few values, so that parameters coincide in part
LAMS = [2.5, 10.0, 42.0, 100.0]
BETAS = [1.0, 2.0, 10.0]
EPSS = [1e-3, 1e-5, 1e-7]


class Gen:
    """Random worlds"""
    def __init__(self, r, big=False):
        self.r = r
        self.w = []
        self.by = {}
        self.n = 0
        self.big = big

    def add(self, t, **kw):
        name = f'o{self.n}'
        self.n += 1
        rec = {'name': name, 't': t}
        rec.update({k: v for k, v in kw.items() if v is not None})
        self.w.append(rec)
        self.by[name] = rec
        return name

    def names(self, *kinds):
        return [x['name'] for x in self.w if kind_of(x, self.by) in kinds]

    def kernel(self, cls=None, lam=None):
        r = self.r
        if cls is None:
            cls = r.choice('UVV') if r.random() < .07 else r.choice('LLLB')
        if cls in 'UV':
            lam = lam if lam in LAMS[:3] else r.choice(LAMS[:3])
        return self.add('kernel', cls=cls, lam=lam or r.choice(LAMS))

    def sve(self, k=None, eps=None):
        r = self.r
        if k is None:
            k = self.kernel()
        kw = {}
        if r.random() < .1:
            kw['n_sv'] = r.choice([5, 9])
        if r.random() < .15:
            kw['svd_strat'] = r.choice(['default', 'accurate'])
        if r.random() < .1:
            kw['sve_strat'] = 'sampling'
        if r.random() < .1:
            kw['n_gauss'] = r.choice([8, 12])
        if r.random() < .06:
            # asks for more than the work type can deliver: warning
            kw = {'work_dtype': 'f8'}
            return self.add('sve', k=k, eps=1e-10, kw=kw)
        return self.add('sve', k=k, eps=eps or r.choice(EPSS), kw=kw or None)

    def basis(self, sve=None, stat=None, beta=None, shared=None):
        """``sve`` given: derive from it, else let the basis build its own"""
        r = self.r
        beta = beta or r.choice(BETAS)
        if sve is None and r.random() < .7:
            c = self.names('sve')
            sve = r.choice(c) if c and r.random() < .8 else self.sve()
        if sve is not None:
            srec = self.by[sve]
            krec = self.by[srec['k']]
            lam = krec['lam']
            stat = stat or ('B' if krec['cls'] == 'B' else r.choice('FB'))
            eps = r.choice([e for e in EPSS if e >= (srec.get('eps') or 0)])
            return self.add('basis', stat=stat, beta=beta, wmax=lam / beta,
                            eps=eps, sve=sve, k=srec['k'],
                            max_size=r.choice([None, None, None, 5, 8]))
        lam = r.choice(LAMS)
        return self.add('basis', stat=stat or r.choice('FB'), beta=beta,
                        wmax=lam / beta, eps=r.choice(EPSS),
                        max_size=r.choice([None, None, None, 6]))

    def sampling(self, b=None):
        r = self.r
        if b is None:
            c = self.names('basis')
            b = r.choice(c) if c else self.basis()
        st = stat_of(self.by[b], self.by)
        if r.random() < .45:
            pts = None
            if r.random() < .3:
                pts = {'s': r.randrange(3), 'sh': [r.choice([12, 20])],
                       'sorted': 1}
                if r.random() < .25:
                    pts['clus'] = 1         # poorly conditioned
            return self.add('tau', o=b, pts=pts)
        pos = int(r.random() < .4)
        pts = None
        if r.random() < .3:
            pts = {'s': r.randrange(3), 'sh': [r.choice([12, 20])],
                   'mag': 'mid', 'pos': pos}
        return self.add('mats', o=b, stat=st, pos=pos or None, pts=pts)

    def upoly(self, osc=None):
        r = self.r
        osc = osc or r.choice([None, None, 1])
        return self.add('upoly', s=r.randrange(3), seg=r.choice([1, 2, 4]),
                        deg=r.choice([3, 6]), l=r.choice([1, 2, 5]),
                        sym=r.choice([None, 1]), dx=r.choice([None, 1]), osc=osc)

    def derived(self, k=None):
        r = self.r
        if k is None and HOT and r.random() < .4:
            kinds = sorted({y for _, y in HOT} | HOT_REC)
            k = r.choice(MAKES.get(r.choice(kinds), [None]))
        k = k or r.choice(['slice', 'rescale', 'u', 'v', 'uhat', 'item', 'deriv',
                      'ft0', 'ft0', 'poly0', 'matrix', 'samp', 'samp', 'dlr', 'dlr', 'aug', 'ksym', 'adapter',
                      'bset', 'fbases', 'rule', 'sib', 'sib', 'basis', 'sve',
                      'kernel', 'upoly', 'uft'])
        if k == 'upoly':
            return self.upoly()
        if k == 'uft':
            c = [x['name'] for x in self.w if x['t'] == 'upoly']
            if not c or r.random() < .5:
                c = [self.upoly()]
            return self.add('uft', o=r.choice(c), freq=r.choice(['even', 'odd']),
                            asy=r.choice([None, 200]))
        bs = self.names('basis') or [self.basis()]
        b = r.choice(bs)
        if k == 'slice':
            return self.add('slice', o=b, n=r.randint(2, 6),
                            stat=stat_of(self.by[b], self.by))
        if k == 'rescale':
            return self.add('rescale', o=b, beta=r.choice([.5, 2.0, 10.0, 20.0]))
        if k in ('u', 'v', 'uhat'):
            return self.add('attr', o=b, a=k)
        if k == 'item':
            c = self.names('poly1', 'ft1')
            if not c or r.random() < .3:
                c = [self.add('attr', o=b, a=r.choice(['u', 'v', 'uhat']))]
            return self.add('item', o=r.choice(c), i=r.choice(
                [0, 1, 2, 3, 4, [0, 2], [1, 3, 2]]))
        if k in ('ft0', 'poly0'):
            kd, a = {'ft0': ('ft1', 'uhat'), 'poly0': ('poly1', r.choice('uv'))}[k]
            c = self.names(kd) or [self.add('attr', o=b, a=a)]
            return self.add('item', o=r.choice(c), i=r.choice([0, 1, 2, 3, 4]))
        if k == 'deriv':
            c = self.names('poly1', 'poly0') or [self.add('attr', o=b, a='u')]
            return self.add('deriv', o=r.choice(c), n=r.randint(1, 2))
        if k == 'matrix':
            c = self.names('samp', 'dlr') or [self.sampling(b)]
            return self.add('attr', o=r.choice(c), a='matrix')
        if k == 'samp':
            return self.sampling(b)
        if k == 'dlr':
            # only on the logistic kernel
            c = [x for x in bs if self._logistic(x)]
            if not c:
                return self.sampling(b)
            pts = {'s': r.randrange(3), 'sh': [r.choice([6, 9])], 'sorted': 1} \
                if r.random() < .6 else None
            if pts and r.random() < .4:
                pts['L'] = 1
            return self.add('dlr', o=r.choice(c), pts=pts,
                            stat=stat_of(self.by[c[0]], self.by) if len(c) == 1
                            else None)
        if k == 'aug':
            st = stat_of(self.by[b], self.by)
            c = [['MatsubaraConst'], ['MatsubaraConst'], ['Scaled@2.5'],
                 ['Pole@1.5'], ['Pole@-3', 'MatsubaraConst']]
            if st == 'B':
                c += [['TauConst'], ['TauConst'], ['TauConst', 'TauLinear'],
                      ['TauConst', 'TauLinear'], ['TauLinear@2', 'Scaled@0.5']]
            return self.add('aug', o=b, augs=r.choice(c))
        if k == 'ksym':
            c = self.names('kernel') or [self.kernel()]
            return self.add('ksym', k=r.choice(c), sign=r.choice([1, -1]))
        if k == 'adapter':
            c = self.names('sve') or [self.sve()]
            s = r.choice(c)
            kr = self.by[self.by[s]['k']]
            return self.add('adapter', sve=s, lam=kr['lam'],
                            stat='F' if kr['cls'] == 'L' else 'B')
        if k in ('bset', 'fbases'):
            beta = r.choice(BETAS)
            lam = r.choice(LAMS[:3])
            c = [x for x in self.names('sve')
                 if self.by[self.by[x]['k']]['cls'] == 'L']
            if c and r.random() < .7:
                s = r.choice(c)
                lam = self.by[self.by[s]['k']]['lam']
                eps = r.choice([e for e in EPSS if e >= (self.by[s].get('eps') or 0)])
            else:
                s, eps = None, r.choice(EPSS)
            kw = {} if k == 'bset' else {'i': r.randrange(2)}
            n = self.add(k, beta=beta, wmax=lam / beta, eps=eps, sve=s, **kw)
            if k == 'bset' and r.random() < .5:
                return self.add('attr', o=n, a=r.choice(
                    ['smpl_tau_f', 'smpl_tau_b', 'smpl_wn_f', 'smpl_wn_b',
                     'basis_f', 'basis_b']))
            return n
        if k == 'rule':
            return self.add('rule', n=r.choice([4, 10, 16]),
                            edges=r.choice([None, [-1, 0, 1], [-1, -.5, .5, 1]]))
        if k == 'sib':
            # sibling: same as an existing recipe but for one parameter
            return self.sibling()
        if k == 'basis':
            return self.basis()
        if k == 'sve':
            return self.sve()
        return self.kernel()

    def _logistic(self, b):
        rec = self.by[b]
        while rec['t'] in ('slice', 'rescale'):
            rec = self.by[rec['o']]
        if rec['t'] == 'basis':
            return 'k' not in rec or self.by[rec['k']]['cls'] == 'L'
        return rec['t'] == 'fbases'

    def sibling(self):
        r = self.r
        c = [x for x in self.w if x['t'] in ('basis', 'sve', 'tau', 'mats',
                                             'kernel', 'bset')]
        if not c:
            return self.basis()
        rec = dict(r.choice(c))
        rec.pop('name')
        t = rec.pop('t')
        if t == 'basis':
            ch = r.choice(['stat', 'beta', 'eps', 'max_size', 'kernel', 'same'])
            if ch == 'stat' and ('k' not in rec or self.by[rec['k']]['cls'] == 'L'):
                rec['stat'] = 'B' if rec['stat'] == 'F' else 'F'
            elif ch == 'beta':
                lam = rec['beta'] * rec['wmax']
                rec['beta'] = r.choice([b for b in BETAS if b != rec['beta']])
                rec['wmax'] = lam / rec['beta']
            elif ch == 'eps' and 'sve' not in rec:
                rec['eps'] = r.choice([e for e in EPSS if e != rec.get('eps')])
            elif ch == 'kernel' and 'sve' in rec \
                    and self.by[rec['k']]['cls'] == 'L':
                k = self.kernel('B', self.by[rec['k']]['lam'])
                rec['sve'] = self.sve(k, self.by[rec['sve']].get('eps'))
                rec['k'] = k
                rec['stat'] = 'B'
            else:
                rec['max_size'] = r.choice([3, 4, 7])
        elif t == 'sve':
            ch = r.choice(['eps', 'kernel', 'lam', 'nsv'])
            kr = self.by[rec['k']]
            if ch == 'eps':
                rec['eps'] = r.choice([e for e in EPSS if e != rec.get('eps')])
            elif ch == 'kernel':
                rec['k'] = self.kernel('B' if kr['cls'] == 'L' else 'L', kr['lam'])
            elif ch == 'lam':
                rec['k'] = self.kernel(kr['cls'], r.choice(
                    [x for x in LAMS if x != kr['lam']]))
            else:
                rec['kw'] = {'n_sv': 6}
        elif t == 'tau':
            if rec.get('pts'):
                rec['pts'] = dict(rec['pts'], s=(rec['pts']['s'] + 1) % 3) \
                    if r.random() < .4 else dict(
                        rec['pts'], tw=[r.choice(TWEAKS[:8]), r.randrange(3)])
            else:
                rec['pts'] = {'s': 0, 'sh': [12], 'sorted': 1}
        elif t == 'mats':
            if rec.get('pts') and r.random() < .4:
                rec['pts'] = dict(rec['pts'], tw=[r.choice(TWEAKS[:7]),
                                                  r.randrange(3)])
            elif r.random() < .5:
                if rec.get('pos'):
                    rec.pop('pos')
                else:
                    rec['pos'] = 1
                if rec.get('pts'):
                    rec['pts'] = dict(rec['pts'], pos=rec.get('pos', 0))
            else:
                rec['pts'] = {'s': r.randrange(3), 'sh': [16], 'mag': 'mid',
                              'pos': rec.get('pos', 0)}
        elif t == 'kernel':
            if r.random() < .5:
                rec['cls'] = 'B' if rec['cls'] == 'L' else 'L'
            else:
                rec['lam'] = r.choice([x for x in LAMS if x != rec['lam']])
        elif t == 'bset':
            rec['beta'], rec['wmax'] = rec['wmax'], rec['beta']
        return self.add(t, **rec)


def gen_world(r, n=None, heavy=.3):
    """A random world with about ``n`` objects"""
    g = Gen(r)
    n = n or r.randint(5, 11)
    mode = r.random()
    if mode < .35:
        # one basis pair sharing an expansion
        lam = r.choice(LAMS[:3])
        k = g.kernel('L', lam)
        s = g.sve(k)
        beta = r.choice(BETAS)
        g.basis(s, 'F', beta)
        g.basis(s, 'B', beta)
    elif mode < .6:
        g.basis()
        g.sibling()
    else:
        g.basis()
    while len(g.w) < n:
        g.derived()
    if not g.names('samp'):
        g.sampling()
    return g.w


def quiet(fn, *a):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a)
