"""D01: derived objects are the same whichever way they are reached."""
import copy
import gc
import json
import pickle
import traceback
import warnings

import numpy as np

from .. import alloc, canon, faults, proc
from . import r01

PROP = 'D01'
PLAN = {'quick': (2000, 60), 'thorough': (60000, 760)}
RULE = ('A case is one history of derivations from one expansion: bases built from '
        'it, truncated (any slice), rescaled, turned into the other statistics, '
        'paired, put into sets, augmented, turned into pole representations, '
        'functions indexed and differentiated, objects copied, pickled, thrown '
        'away, in any order; steps are interrupted or fail and are repeated, and '
        'the process restarts with the saved objects. A reference model (the '
        'arrays of the expansion plus inverse temperature, cutoff, size, list of '
        'functions) tells every attribute, value and default sampling point of '
        'every object; default points come from direct construction in a '
        'pristine process. Non-trivial: some object was reached by at least two '
        'derivations. Distinct: by configuration and history.')
REAL = ['all of sparse_ir from the working tree', 'NumPy', 'SciPy', 'xprec']
STUB = ['interrupts, failing allocations and back-ends', 'restarts',
        'NumPy array allocator (fixed alignment)']
ASSUME = ['the expansion itself is right (see B01); functions are not evaluated '
          'within rounding of inner knots, where the polynomial pieces meet']
EPS = 2.3e-16
FRAC = np.array([0.0, 1.0, .0123, .117, .2931, .4713, .5391, .6837, .8219, .9897,
                 .99931])
LOW = np.array([0, 1, 2, 3, 7, 20, 55, -1, -4, -31])


class Bad(Exception):
    def __init__(self, key, text):
        self.key, self.text = key, text


# -------------------------------------------------------------------- reference

class Ref:
    """Plain arrays of the expansion"""
    def __init__(self, sv, cfg):
        self.u = np.array(sv.u.data, float), np.array(sv.u.knots, float)
        self.v = np.array(sv.v.data, float), np.array(sv.v.knots, float)
        self.s = np.array(sv.s, float)
        self.eps = float(sv.eps)
        self.cls = cfg['cls']
        self.lam = cfg['lam']
        self.power = 0
        self.cache = {}

    def count(self, eps, max_size):
        n = int((self.s >= (self.eps if eps is None else eps) * self.s[0]).sum())
        return n if max_size is None else min(n, max_size)

    def poly(self, which, n, x):
        """(values, bound of size) of n'th derivative on [-1, 1]"""
        key = which, n, x.tobytes()
        if key not in self.cache:
            data, kn = getattr(self, which)
            i = np.clip(np.searchsorted(kn, x, 'right') - 1, 0, kn.size - 2)
            t = ((x - kn[i]) - (kn[i + 1] - x)) / (kn[i + 1] - kn[i])
            dx = np.diff(kn)
            leg = np.polynomial.legendre
            out = []
            for c, m in ((data, n), (np.abs(data), n), (np.abs(data), n + 1)):
                d = leg.legder(c, m) if m else c
                if not d.shape[0]:
                    d = np.zeros((1,) + c.shape[1:])
                w = (2 / dx) ** (m + .5)
                if not out:
                    P = leg.legvander(t, d.shape[0] - 1)
                    out.append(np.einsum('xk,kxl->lx', P, d[:, i]) * w[i])
                else:
                    out.append((d.sum(axis=0) * w[:, None]).max(axis=0))
            val, b0, b1 = out
            self.cache[key] = val, 3e-13 * b0 + 8e-16 * b1
        return self.cache[key]

    def hat(self, n):
        key = 'hat', n.tobytes()
        if key not in self.cache:
            r = r01.Ref.__new__(r01.Ref)
            r.data, r.knots = self.u
            r.L, r.beta = self.s.size, 1.
            with np.errstate(all='ignore'):
                v = r.hat(n)
            self.cache[key] = v, np.abs(v).max(axis=1)
        return self.cache[key]


def tau_values(ref, m, n, x):
    """Derivatives of the time functions of model m at fractions x of beta"""
    a = m['beta'] / 2
    v, t = ref.poly('u', n, 2 * x - 1)
    f = a ** (-n - .5)
    return v[:m['L']] * f, t[:m['L']] * f


def omega_values(ref, m, n, x):
    v, t = ref.poly('v', n, 2 * x - 1)
    f = m['wmax'] ** (-n - .5)
    return v[:m['L']] * f, t[:m['L']] * f


def hat_values(ref, m, n):
    low = n[:LOW.size]
    v, big = ref.hat(low)
    t = 3e-12 * big[:, None] + 0 * np.abs(v)
    h = ref.high[m['stat']]
    if h.shape[0] != v.shape[0]:
        raise Bad('size', f'{h.shape[0]} functions in the complete basis instead '
                  f'of {v.shape[0]}')
    v = np.concatenate([v, h], axis=1)
    t = np.concatenate([t, 1e-12 * np.abs(h)], axis=1)
    f = np.sqrt(m['beta'])
    return v[:m['L']] * f, t[:m['L']] * f


def freqs(ref, m):
    return np.concatenate([2 * LOW + (m['stat'] == 'F'), high(ref.lam, m['stat'])])


def high(lam, stat):
    """Frequencies in the asymptotic regime"""
    n = int(40 * max(lam, 10)) // 2
    return 2 * np.array([n + 5, -n - 9, 7 * n]) + (stat == 'F')


# --------------------------------------------------------------------- planning
#
# A model is plain data: {'t': 'basis', 'stat', 'beta', 'wmax', 'L'},
# {'t': 'aug', 'base': model, 'names'}, {'t': 'dlr', 'base': model, 'poles'},
# {'t': 'func', 'of': model, 'which', 'idx', 'd'}


def basis_model(ref, stat, beta, L):
    return {'t': 'basis', 'stat': stat, 'beta': beta, 'wmax': ref.lam / beta, 'L': L}


def size(m):
    if m['t'] == 'aug':
        return len(m['names']) + m['base']['L']
    return m['L']


def after(ref, models, st):
    """Models of the objects which a step creates; None: it must raise"""
    do = st['do']
    m = models[st['src']] if 'src' in st else None
    if do == 'new':
        L = ref.count(st['eps'], st['max_size'])
        return [basis_model(ref, st['stat'], st['beta'], L)]
    if do == 'slice':
        n = len(range(size(m))[:st['stop']])
        if m['t'] == 'aug':
            k = n - len(m['names'])
            return [dict(m, base=dict(m['base'], L=k))] if k > 0 else None
        return [dict(m, L=n)] if n > 0 else None
    if do == 'rescale':
        return [dict(m, beta=st['beta'], wmax=ref.lam / st['beta'])]
    if do == 'other':
        return [dict(m, stat='FB'[m['stat'] == 'F'])]
    if do in ('pair', 'set'):
        L = ref.count(st['eps'], None)
        return [basis_model(ref, s, st['beta'], L) for s in 'FB']
    if do == 'aug':
        return [{'t': 'aug', 'base': m, 'names': st['names']}]
    if do == 'dlr':
        p = st['poles']
        return [{'t': 'dlr', 'base': m, 'poles': p and [x * m['wmax'] for x in p]}]
    if do in ('copy', 'deepcopy', 'pickle'):
        return [m]
    if do == 'base':
        return [m['base']]
    if do == 'func':
        n = size(m)
        return [{'t': 'func', 'of': m, 'which': st['which'], 'd': 0,
                 'idx': list(range(n))}]
    if do == 'index':
        try:
            return [dict(m, idx=np.array(m['idx'], int)[as_key(st['key'])].tolist())]
        except IndexError:
            return None
    if do == 'deriv':
        return [dict(m, d=m['d'] + st['n'])]
    return []


def as_key(k):
    return slice(*k['slice']) if isinstance(k, dict) else k


def gen(r, cfg, ref):
    steps, models = [], []
    depth = []

    def pick(*ts):
        c = [i for i, m in enumerate(models) if m and m['t'] in ts]
        # rather objects derived several times
        return max(r.sample(c, min(2, len(c))), key=lambda i: depth[i]) if c else None

    def eps():
        return r.choice([None, None, 10 ** -r.uniform(.5, 9),
                         float(10 ** -r.uniform(.3, 3)), 1e-14])
    n = r.randint(4, 14)
    while len(steps) < n:
        do = r.choice(['new', 'slice', 'slice', 'slice', 'rescale', 'rescale',
                       'other', 'pair', 'set', 'aug', 'aug', 'dlr', 'copy', 'deepcopy',
                       'pickle', 'base', 'func', 'func', 'index', 'index', 'deriv',
                       'drop', 'restart', 'points', 'points', 'check', 'roots'])
        if not models:
            do = 'new'
        st = {'do': do}
        beta = r.choice([1., 2., .37]) if r.random() < .3 else 10 ** r.uniform(-2, 3)
        if do == 'new':
            st.update(stat='B' if cfg['cls'] == 'B' else r.choice('FB'), beta=beta,
                      eps=eps(), max_size=r.choice([None, None, r.randint(1, 60)]),
                      kernel=int(cfg['cls'] == 'B' or r.random() < .5))
        elif do == 'slice':
            s = pick('basis', 'basis', 'aug')
            if s is None:
                continue
            k = size(models[s])
            st.update(src=s, stop=r.choice([r.randint(1, k), r.randint(1, k),
                                            r.randint(1, k), k, k + 1, k + 7, None,
                                            -1, -r.randint(1, k), 0]),
                      how=r.choice(['plain', 'numpy', 'zero', 'step']))
        elif do in ('rescale', 'other', 'dlr', 'aug'):
            s = pick('basis')
            if s is None or cfg['cls'] == 'B' and do in ('other', 'dlr'):
                continue
            st['src'] = s
            if do == 'rescale':
                st['beta'] = beta
                if r.random() < .25:
                    # there and back and elsewhere
                    st['via'] = [10 ** r.uniform(-2, 3)
                                 for _ in range(r.choice([1, 3, 10, 40]))]
            elif do == 'aug':
                m = models[s]
                a = [['MatsubaraConst'], ['Scaled@2.5'], ['Pole@1.5'],
                     ['Pole@-3', 'MatsubaraConst']]
                if m['stat'] == 'B':
                    a += [['TauConst'], ['TauConst', 'TauLinear'], ['TauLinear'],
                          ['TauConst', 'TauLinear', 'MatsubaraConst'],
                          ['TauLinear@2', 'Scaled@0.5'], ['TauConst@1.5']]
                st['names'] = r.choice(a)
                st['inst'] = r.randint(0, 1)
            elif do == 'dlr':
                st['poles'] = None if r.random() < .4 and models[s]['L'] > 1 else \
                    sorted({r.choice([0., 1., -1., r.uniform(-1, 1)])
                            for _ in range(r.randint(1, 5))})
        elif do in ('pair', 'set'):
            if cfg['cls'] == 'B':
                continue
            st.update(beta=beta, eps=eps())
            if do == 'set':
                # below lies noise, which cannot be sampled
                st['eps'] = st['eps'] and max(st['eps'], ref.eps)
                if ref.count(st['eps'], None) > 40:
                    continue
        elif do in ('copy', 'deepcopy', 'pickle', 'check'):
            st['src'] = pick('basis', 'aug', 'dlr', 'func')
        elif do == 'base':
            s = pick('dlr')
            if s is None:
                continue
            st['src'] = s
        elif do == 'func':
            s = pick('basis', 'aug')
            m = models[s]
            st.update(src=s, which=r.choice(['u', 'uhat'] + (
                ['v', 'u'] if m['t'] == 'basis' else [])))
        elif do == 'index':
            s = pick('func')
            if s is None:
                continue
            m = models[s]
            if not isinstance(m['idx'], list):
                continue
            k = len(m['idx'])
            if not k:
                continue
            if m['of']['t'] == 'aug':
                na = len(m['of']['names'])
                if m['d'] and m['which'] == 'uhat':
                    continue
                key = r.choice([r.randrange(k), -r.randint(1, k),
                                {'slice': [None, r.randint(min(na + 1, k), k + 2),
                                           None]}, {'slice': [None, None, None]}])
                if not isinstance(key, int) and len(range(k)[as_key(key)]) <= na:
                    continue
            else:
                key = r.choice([r.randrange(k), -r.randint(1, k), r.randint(-k, k - 1),
                                {'slice': [r.choice([None, r.randint(-k, k)]),
                                           r.choice([None, r.randint(-k, k + 2)]),
                                           r.choice([None, 1, 2, -1, 3])]},
                                {'slice': [None, r.randint(1, k), None]},
                                [r.randint(-k, k - 1) for _ in range(3)]])
                if not isinstance(key, (int, list)) and \
                        not len(range(k)[as_key(key)]):
                    continue
            st.update(src=s, key=key)
        elif do == 'deriv':
            s = pick('func')
            if s is None or models[s]['which'] == 'uhat' or models[s]['d'] > 2:
                continue
            if models[s]['of']['t'] == 'aug' and (
                    models[s]['d'] or not isinstance(models[s]['idx'], list)):
                continue
            st.update(src=s, n=r.choice([1, 1, 2]))
        elif do == 'drop':
            st['src'] = pick('basis', 'aug', 'dlr', 'func')
            if st['src'] is None or sum(m is not None for m in models) < 3:
                continue
        elif do == 'restart':
            if r.random() < .5:
                continue
        elif do == 'points':
            s = pick('basis', 'basis', 'aug', 'dlr')
            if s is None:
                continue
            m = models[s]
            b = m.get('base', m)
            k = size(m) if m['t'] != 'dlr' else b['L']
            st.update(src=s, kind=r.choice(['tau', 'wn', 'wn', 'pos'] + (
                ['omega'] if m['t'] == 'basis' else [])),
                npoints=None if m['t'] == 'dlr' or r.random() < .5
                else r.randint(1, k + 3))
        elif do == 'roots':
            c = [j for j, m in enumerate(models) if m and m['t'] == 'func'
                 and m['of']['t'] == 'basis']
            if not c:
                continue
            st['src'] = s = r.choice(c)
            m = models[s]
            st['l'] = r.randrange(len(m['idx'])) if isinstance(m['idx'], list) else None
            if st['l'] is not None and not m['idx']:
                continue
            if m['which'] == 'uhat':
                st.update(kind=r.choice(['extrema', 'sign_changes']),
                          part=r.choice([None, None, 'right']),
                          pos=r.random() < .5)
            else:
                st['kind'] = 'roots'
        if 'src' in st and st['src'] is None:
            continue
        if do not in ('drop', 'restart', 'check') and r.random() < .25:
            st['fault'] = {'kind': r.choice(['kbd', 'mem', 'kbd', 'mem', 'kbd', 'alloc',
                                             'backend', 'backend']),
                           'at': r.choice([1, 1, 2, 3, 4, 6, 9, 14, 25, 60, 200]),
                           'exc': r.choice(['LinAlgError', 'ValueError']),
                           'count': r.choice([1, 2])}
        steps.append(st)
        if do == 'drop':
            models[st['src']] = None
            continue
        new = after(ref, models, st)
        if new:
            d = 1 + depth[st['src']] if 'src' in st else 0
            models += new
            depth += [d] * len(new)
        if r.random() < .3:
            c = pick('basis', 'aug', 'dlr', 'func')
            if c is not None:
                steps.append({'do': 'check', 'src': c})
        def more(st):
            steps.append(st)
            new = after(ref, models, st)
            if new:
                models.extend(new)
                depth.append(1 + depth[st['src']])
        if do == 'aug' and r.random() < .6:
            more({'do': 'func', 'src': len(models) - 1, 'which': 'u'})
            more({'do': 'deriv', 'src': len(models) - 1, 'n': r.choice([1, 2, 3])})
        if do == 'func' and m['t'] == 'basis' and r.random() < .5:
            # walk on from one function to the roots of its derivatives
            s = len(models) - 1
            if r.random() < .7:
                more({'do': 'index', 'src': s, 'key': r.randrange(m['L'])})
            for _ in range(r.randint(1, 3)):
                m = models[-1]
                l = r.randrange(len(m['idx'])) if isinstance(m['idx'], list) else None
                if r.random() < .7:
                    steps.append({
                        'do': 'roots', 'src': len(models) - 1, 'l': l,
                        **({'kind': 'roots'} if m['which'] != 'uhat' else
                           {'kind': r.choice(['extrema', 'sign_changes']),
                            'part': r.choice([None, 'right']),
                            'pos': r.random() < .5})})
                if m['which'] == 'uhat' or m['d'] > 2:
                    break
                more({'do': 'deriv', 'src': len(models) - 1,
                      'n': r.choice([1, 2, 2])})
    return {'steps': steps, 'depth': max(depth)}


# ---------------------------------------------------------------- direct answers

def point_key(m, kind, npoints):
    b = m.get('base', m)
    n = npoints
    if n is None:
        n = size(m) if m['t'] != 'dlr' else b['L']
    return json.dumps([b['stat'] if kind in ('wn', 'pos') else '', b['L'], kind, n])


def root_key(m, st):
    l = m['idx'] if st['l'] is None else m['idx'][st['l']]
    l = int(l)
    return json.dumps(['roots', st['kind'], m['which'], l, m['d'],
                       m['of']['stat'] if m['which'] == 'uhat' else '',
                       st.get('part'), st.get('pos')])


def find(f, kind, part, pos, stat, l):
    if kind == 'roots':
        return f.roots()
    if part:
        part = ['real', 'imag'][(stat == 'F') ^ l % 2]
    return getattr(f, kind)(part=part, positive_only=pos)


def wanted(ref, h):
    """Keys of all default points which a history asks for"""
    out, models = set(), []
    for st in h['steps']:
        if st['do'] == 'drop':
            models[st['src']] = None
        elif st['do'] == 'roots':
            out.add(root_key(models[st['src']], st))
        elif st['do'] == 'points':
            out.add(point_key(models[st['src']], st['kind'], st['npoints']))
        else:
            new = after(ref, models, st) or []
            if st['do'] == 'dlr' and st['poles'] is None:
                out.add(point_key(models[st['src']], 'omega', None))
            if st['do'] == 'set':
                for m in new:
                    out.add(point_key(m, 'wn', None))
                    out.add(point_key(m, 'tau', None))
            models += new
    return out


def ask(b, kind, npoints):
    kw = {} if npoints is None else {'npoints': npoints}
    if kind == 'tau':
        return b.default_tau_sampling_points(**kw)
    if kind == 'omega':
        return b.default_omega_sampling_points(**kw)
    return b.default_matsubara_sampling_points(positive_only=kind == 'pos', **kw)


def outcome(b, kind, npoints):
    return attempt(lambda: ask(b, kind, npoints))


def attempt(f):
    try:
        return 'ret', np.array(f())
    except Exception as e:                              # noqa: B902
        return 'exc', type(e).__name__


def direct(cfg, sv, keys):
    """Default points of bases constructed directly, by key"""
    import sparse_ir
    out = {}
    for key in sorted(keys):
        q = json.loads(key)
        if q[0] == 'roots':
            _, kind, which, l, d, stat, part, pos = q
            b = sparse_ir.FiniteTempBasis(stat or 'FB'[cfg['cls'] == 'B'], 2.,
                                          cfg['lam'] / 2, 0., kernel=make_kernel(cfg),
                                          sve_result=sv)
            f = getattr(b, which) if which == 'uhat' else getattr(sv, which)
            f = f[l]
            for _ in range(d):
                f = f.deriv()
            out[key] = attempt(lambda: find(f, kind, part, pos, stat, l))
            continue
        stat, L, kind, n = q
        stat = stat or ('B' if cfg['cls'] == 'B' else 'F')
        b = sparse_ir.FiniteTempBasis(stat, 2., cfg['lam'] / 2, 0., max_size=L,
                                      kernel=make_kernel(cfg), sve_result=sv)
        if b.size != L:
            raise Bad('size', f'{b.size} functions in a basis limited to {L}')
        out[key] = outcome(b, kind, n)
    return out


def scaled(out, m, kind):
    """Direct points, for the temperature of a model"""
    b = m.get('base', m)
    if kind == 'tau':
        return out * (b['beta'] / 2)
    if kind == 'omega':
        return out * (b['wmax'] / (b['lam'] / 2))
    return out


# --------------------------------------------------------------------- checking

def close(what, got, want, tol):
    got = np.asarray(got)
    if got.shape != want.shape:
        raise Bad('shape', f'{what}: shape {got.shape} instead of {want.shape}')
    with np.errstate(all='ignore'):
        ok = (np.abs(got - want) <= tol) | (np.isnan(got) & np.isnan(want))
    if not ok.all():
        i = np.unravel_index(np.argmin(ok), ok.shape)
        raise Bad('value', f'{what}: {got[i]} instead of {want[i]} at {list(map(int, i))}')


def equal(what, got, want):
    if got != want:
        raise Bad('attribute', f'{what}: {got!r} instead of {want!r}')


def near(what, got, want, rtol=2e-15):
    if not abs(got - want) <= rtol * abs(want):
        raise Bad('attribute', f'{what}: {got!r} instead of {want!r}')


def check_basis(ref, b, m, what):
    equal(what + '.statistics', b.statistics, m['stat'])
    near(what + '.beta', b.beta, m['beta'])
    near(what + '.wmax', b.wmax, m['wmax'])
    near(what + '.lambda_', b.lambda_, ref.lam)
    near(what + '.kernel.lambda_', b.kernel.lambda_, ref.lam)
    # from now on to the last digit
    m['beta'], m['wmax'] = float(b.beta), float(b.wmax)
    L = m['L']
    equal(what + '.size', b.size, L)
    equal(what + '.shape', b.shape, (L,))
    f = np.sqrt(m['beta'] / 2 * m['wmax']) * m['wmax'] ** ref.power
    close(what + '.s', b.s, f * ref.s[:L], 4e-15 * f * ref.s[:L])
    s = ref.s / ref.s[0]
    close(what + '.significance', b.significance, s[:L], 4e-15 * s[:L])
    near(what + '.accuracy', b.accuracy, s[L] if L < s.size else s[-1], 4e-15)
    equal(what + '.is_well_conditioned', bool(b.is_well_conditioned), True)
    for w, hi in (('u', m['beta']), ('v', m['wmax'])):
        p = getattr(b, w)
        equal(f'{what}.{w}.shape', p.shape, (L,))
        near(f'{what}.{w}.xmax', float(p.xmax), hi)
        near(f'{what}.{w}.xmin', float(p.xmin), 0. if w == 'u' else -hi)
    check_values(ref, b, m, what)


def check_values(ref, b, m, what):
    x = FRAC
    v, t = tau_values(ref, m, 0, x)
    close(what + '.u(tau)', b.u(m['beta'] * x), v, t[:, None])
    if m['t'] == 'basis':
        v, t = omega_values(ref, m, 0, x)
        close(what + '.v(w)', b.v(m['wmax'] * (2 * x - 1)), v, t[:, None])
    n = freqs(ref, m)
    v, t = hat_values(ref, m, n)
    close(what + '.uhat(n)', b.uhat(n), v, t)


def aug_values(m, kind, d, x):
    b = m['base']
    rows = []
    from .. import useraug
    for nm in m['names']:
        # an augmentation keeps the temperature it was made for
        rows.append(useraug.hat_value(nm, b['beta'], x) if kind == 'uhat' else
                    useraug.tau_value(nm, b['beta'], d, x))
    return np.array(rows)


def func_values(ref, m, frac=FRAC):
    """points, values and tolerance for a function model"""
    of = m['of']
    FRAC = frac
    b = of.get('base', of)
    if m['which'] == 'uhat':
        x = freqs(ref, b)
        v, t = hat_values(ref, b, x)
    elif m['which'] == 'u':
        v, t = tau_values(ref, b, m['d'], FRAC)
        x = b['beta'] * FRAC
        t = t[:, None] + 0 * v
    else:
        v, t = omega_values(ref, b, m['d'], FRAC)
        x = b['wmax'] * (2 * FRAC - 1)
        t = t[:, None] + 0 * v
    if of['t'] == 'aug':
        a = aug_values(of, m['which'], m['d'], x)
        v = np.concatenate([a, v])
        scale = np.nan_to_num(np.abs(a))
        if m['which'] == 'u' and scale.size:
            scale = np.maximum(scale, .1 * scale.max(1, keepdims=True))
        t = np.concatenate([4e-15 * scale + 1e-290, t])
    i = np.array(m['idx'], int)
    return x, v[i], t[i]


def check_func(ref, f, m, what):
    x, v, t = func_values(ref, m)
    what += f' ({m["which"]}, derivative {m["d"]})'
    close(what, f(x), v, t)
    if hasattr(f, 'shape'):
        equal(what + '.shape', tuple(f.shape), np.shape(m['idx']))
    y = x[:6].reshape(2, 3)
    close(what + ', matrix of points', f(y), v[..., :6].reshape(v.shape[:-1] + (2, 3)),
          t[..., :6].reshape(v.shape[:-1] + (2, 3)))
    close(what + ', one point', f(x[3]), v[..., 3], t[..., 3])
    if hasattr(f, 'value') and np.ndim(m['idx']) == 1:
        j = np.arange(len(m['idx']))
        close(what + ', value', f.value(j[:, None], x), v, t)
        close(what + ', value', f.value(j[::-1], x[3]), v[::-1, 3], t[::-1, 3])
    if m['which'] == 'uhat':
        k = LOW.size
        close(what + ', list', f([int(i) for i in x[:k]]), v[..., :k], t[..., :k])
        close(what + ', one frequency', f(int(x[1])), v[..., 1], t[..., 1])
        return
    # whole numbers, as such
    hi = m['of'].get('base', m['of'])['beta' if m['which'] == 'u' else 'wmax']
    k = np.unique(np.array([0, .31 * hi, .77 * hi, hi]).astype(int))
    frac = k / hi if m['which'] == 'u' else (k / hi + 1) / 2
    kn = ref.u[1] if m['which'] == 'u' else ref.v[1]
    far = np.abs(2 * frac - 1 - kn[1:-1, None]).min(axis=0, initial=1) > 1e-9
    k, frac = k[far], frac[far]
    if k.size:
        _, v, t = func_values(ref, m, frac)
        close(what + ', whole numbers', f(k), v, t)
        close(what + ', list of whole numbers', f(k.tolist()), v, t)
        close(what + ', one whole number', f(int(k[-1])), v[..., -1], t[..., -1])


def check(ref, obj, m, what, pts):
    if m['t'] == 'basis':
        check_basis(ref, obj, m, what)
    elif m['t'] == 'func':
        check_func(ref, obj, m, what)
    elif m['t'] == 'aug':
        b = m['base']
        equal(what + '.statistics', obj.statistics, b['stat'])
        near(what + '.beta', obj.beta, b['beta'])
        near(what + '.wmax', obj.wmax, b['wmax'])
        near(what + '.lambda_', obj.lambda_, ref.lam)
        equal(what + '.size', obj.size, size(m))
        equal(what + '.shape', obj.shape, (size(m),))
        s = ref.s / ref.s[0]
        near(what + '.accuracy', obj.accuracy,
             s[b['L']] if b['L'] < s.size else s[-1], 4e-15)
        close(what + '.significance', obj.significance, s[:b['L']], 4e-15 * s[:b['L']])
        equal(what + '.is_well_conditioned', bool(obj.is_well_conditioned),
              len(m['names']) == 1 and
              m['names'][0].split('@')[0] in ('MatsubaraConst', 'Scaled'))
        near(what + '.u.xmax', float(obj.u.xmax), b['beta'])
        equal(what + '.u.xmin', float(obj.u.xmin), 0.)
        for w in ('u', 'uhat'):
            check_func(ref, getattr(obj, w), {
                't': 'func', 'of': m, 'which': w, 'd': 0,
                'idx': list(range(size(m)))}, f'{what}.{w}')
    elif m['t'] == 'dlr':
        b = m['base']
        poles = m['poles']
        if poles is None:
            k, o = pts[point_key(b, 'omega', None)]
            if k != 'ret':
                raise Bad('raise', f'{what}: direct construction raises, derived does not')
            poles = scaled(np.array(o), dict(b, lam=ref.lam), 'omega')
        p = np.asarray(poles, float)
        close(what + '.sampling_points', obj.sampling_points, p, 1e-12 * b['wmax'])
        equal(what + '.size', obj.size, p.size)
        equal(what + '.shape', obj.shape, (p.size,))
        equal(what + '.statistics', obj.statistics, b['stat'])
        near(what + '.beta', obj.beta, b['beta'])
        near(what + '.wmax', obj.wmax, b['wmax'])
        near(what + '.lambda_', obj.lambda_, ref.lam)
        s = ref.s / ref.s[0]
        near(what + '.accuracy', obj.accuracy,
             s[b['L']] if b['L'] < s.size else s[-1], 4e-15)
        p = np.asarray(obj.sampling_points)
        t = b['beta'] * FRAC
        v = r01.poles_tau(b['beta'], p, t)
        close(what + '.u', obj.u(t), v, 1e-14 * (1 + ref.lam))
        n = freqs(ref, b)
        v = r01.poles_hat(b['beta'], p, n, b['stat'])
        close(what + '.uhat', obj.uhat(n), v, 1e-13 * np.abs(v) + 1e-290)
        check_basis(ref, obj.basis, b, what + '.basis')


# -------------------------------------------------------------------- executing

def make_kernel(cfg):
    from sparse_ir import kernel
    return (kernel.RegularizedBoseKernel if cfg['cls'] == 'B' else
            kernel.LogisticKernel)(cfg['lam'])


def perform(cfg, sv, objs, st):
    """New objects of a step"""
    import sparse_ir
    from sparse_ir import augment, dlr
    from .. import useraug
    do = st['do']
    o = objs[st['src']] if 'src' in st else None
    if do == 'new':
        kw = {'kernel': make_kernel(cfg)} if st['kernel'] else {}
        return [sparse_ir.FiniteTempBasis(
            st['stat'], st['beta'], cfg['lam'] / st['beta'], st['eps'],
            max_size=st['max_size'], sve_result=sv, **kw)]
    if do == 'slice':
        k, how = st['stop'], st['how']
        if how == 'numpy' and k is not None:
            k = np.int64(k)
        return [o[slice(0 if how == 'zero' else None, k,
                        1 if how == 'step' else None)]]
    if do == 'rescale':
        for b in st.get('via', ()):
            o = o.rescale(b)
        return [o.rescale(st['beta'])]
    if do == 'other':
        return [sparse_ir.FiniteTempBasis(
            'FB'[o.statistics == 'F'], o.beta, o.wmax, 0., max_size=o.size,
            kernel=o.kernel, sve_result=o.sve_result)]
    if do == 'pair':
        return list(sparse_ir.finite_temp_bases(
            st['beta'], cfg['lam'] / st['beta'], st['eps'], sv))
    if do == 'set':
        s = sparse_ir.FiniteTempBasisSet(
            st['beta'], cfg['lam'] / st['beta'], st['eps'], sv)
        return [s.basis_f, s.basis_b, s]
    if do == 'aug':
        return [augment.AugmentedBasis(o, *[
            useraug.make(n, o, st['inst']) for n in st['names']])]
    if do == 'dlr':
        p = st['poles']
        return [dlr.DiscreteLehmannRepresentation(
            o, None if p is None else [x * o.wmax for x in p])]
    if do == 'copy':
        return [copy.copy(o)]
    if do == 'deepcopy':
        return [copy.deepcopy(o)]
    if do == 'pickle':
        return [pickle.loads(pickle.dumps(o, 4))]
    if do == 'base':
        return [o.basis]
    if do == 'func':
        return [getattr(o, st['which'])]
    if do == 'index':
        return [o[as_key(st['key'])]]
    if do == 'deriv':
        return [o.deriv(st['n'])]
    if do == 'roots':
        f = o if st['l'] is None else o[st['l']]
        l = st['model']['idx'] if st['l'] is None else st['model']['idx'][st['l']]
        return find(f, st['kind'], st.get('part'), st.get('pos'),
                    st['model']['of']['stat'], int(l))
    if do == 'points':
        return ask(o, st['kind'], st['npoints'])
    raise ValueError(do)


def picklable(m):
    # derivatives of augmentations are closures
    return not (m['t'] == 'func' and m['of']['t'] == 'aug' and m['d'])


def run(cfg, h, sv, ref, pts, state):
    """Execute a history up to its end or the next restart"""
    objs, models, i0, n = state
    out = {'bad': None, 'state': None, 'n': n}
    i, st = i0, {}
    try:
        for i in range(i0, len(h['steps'])):
            st = h['steps'][i]
            if st['do'] == 'restart':
                for j, m in enumerate(models):
                    if m and not picklable(m):
                        objs[j] = models[j] = None
                        n['cannot be saved'] = n.get('cannot be saved', 0) + 1
                n['fault:restart'] = n.get('fault:restart', 0) + 1
                out['state'] = pickle.dumps((objs, models, i + 1, n), 4)
                return out
            step(cfg, h, sv, ref, pts, objs, models, i, n)
        for j, m in enumerate(models):
            if m:
                check(ref, objs[j], m, f'at the end, object {j}', pts)
    except Bad as e:
        out['bad'] = e.key, f'step {i} {json.dumps(st)}: {e.text}'
    except Exception as e:                              # noqa: B902
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if not any('/sparse_ir/' in f.filename for f in tb):
            raise
        out['bad'] = 'raise', (f'step {i} {json.dumps(st)}: {type(e).__name__}: '
                               + canon.message(e))
    return out


def step(cfg, h, sv, ref, pts, objs, models, i, n):
    st = h['steps'][i]
    do = st['do']

    def inc(k):
        n[k] = n.get(k, 0) + 1
    if 'src' in st and models[st['src']] is None:
        inc('skipped')
        if do not in ('drop', 'check', 'points', 'roots'):
            # keep numbering
            objs.append(None)
            models.append(None)
        return
    inc('steps')
    if do == 'drop':
        objs[st['src']] = models[st['src']] = None
        gc.collect()
        return
    if do == 'check':
        check(ref, objs[st['src']], models[st['src']], f'object {st["src"]}', pts)
        return
    if do in ('copy', 'deepcopy', 'pickle') and not picklable(models[st['src']]):
        st = dict(st, do='copy')
    if do == 'roots':
        st = dict(st, model=models[st['src']])
    f = st.get('fault')
    if f:
        fired = None
        try:
            with faults.inject(f) as fired:
                perform(cfg, sv, objs, st)
        except (faults.Interrupt, Exception) as e:      # noqa: B902
            if fired is None or fired.at is None:
                pass                # the same again below
            else:
                inc({'kbd': 'fault:interrupt', 'mem': 'fault:MemoryError',
                     'alloc': 'fault:failed allocation',
                     'backend': 'fault:back-end'}[f['kind']])
                del e
    if do == 'points':
        m = models[st['src']]
        want = pts[point_key(m, st['kind'], st['npoints'])]
        points_agree(ref, m, st['kind'],
                     outcome(objs[st['src']], st['kind'], st['npoints']), want)
        return
    if do == 'roots':
        m = models[st['src']]
        of = m['of']
        want = pts[root_key(m, st)]
        got = attempt(lambda: perform(cfg, sv, objs, st))
        what = f'{st["kind"]} of {m["which"]}, derivative {m["d"]}'
        if got[0] != want[0]:
            raise Bad('points', f'{what}: {got[:2]} instead of {want[:2]}')
        if got[0] == 'ret':
            w = want[1]
            w = {'u': of['beta'] / 2 * (w + 1), 'v': of['wmax'] * w, 'uhat': w}[m['which']]
            close(what, got[1], w, {'u': 1e-12 * of['beta'], 'v': 1e-12 * of['wmax'],
                                    'uhat': 0}[m['which']])
        return
    new = after(ref, models, st)
    try:
        res = perform(cfg, sv, objs, st)
    except Exception as e:                              # noqa: B902
        if new is None:
            return
        raise Bad('raise', f'{type(e).__name__}: {canon.message(e)}')
    if new is None:
        raise Bad('no error', f'gives an object of size {getattr(res[0], "size", "?")}')
    if do == 'set':
        s = res.pop()
        for st_, w, p in (('tau', 'tau', 0), ('wn', 'wn_f', 0), ('wn', 'wn_b', 1)):
            points_agree(ref, new[p], st_, ('ret', np.array(getattr(s, w))),
                         pts[point_key(new[p], st_, None)])
        near('set.beta', s.beta, new[0]['beta'])
        near('set.wmax', s.wmax, new[0]['wmax'])
        near('set.lambda_', s.lambda_, ref.lam)
        near('set.accuracy', s.accuracy, s.basis_f.accuracy)
    for k, m in enumerate(new):
        check(ref, res[k], m, f'new object {len(objs)}', pts)
        objs.append(res[k])
        models.append(m)


def points_agree(ref, m, kind, got, want):
    if got[0] != want[0]:
        raise Bad('points', f'default points ({kind}): {got[:2]} instead of {want[:2]}')
    if got[0] != 'ret':
        return
    b = dict(m.get('base', m), lam=ref.lam)
    g, w = np.asarray(got[1]), scaled(np.asarray(want[1]), {'t': 'basis', **b}, kind)
    close(f'default points ({kind})', g, w,
          1e-13 * (b['beta'] if kind == 'tau' else b['wmax'] if kind == 'omega' else 0))


# ----------------------------------------------------------------------- worlds

def gen_cfg(r, tier):
    cls = 'B' if r.random() < .2 else 'L'
    lam = r.choice([.5, 1., 10., 14., 42., 100., 300.]) if r.random() < .5 else \
        10 ** r.uniform(-1, 3)
    if r.random() < .15 and lam < 120:
        eps = r.choice([None, 1e-9, 1e-12])
    else:
        eps = 10 ** -r.uniform(.7, 7.7)
    return {'cls': cls, 'lam': lam, 'eps': eps}


def expansion(cfg):
    import sparse_ir
    from sparse_ir import sve
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sv = sve.compute(make_kernel(cfg), cfg['eps'])
        ref = Ref(sv, cfg)
        # asymptotics inherit the noise of the polynomials, so there is no
        # independent reference for them
        ref.high = {}
        for stat in 'FB'[cfg['cls'] == 'B':]:
            b = sparse_ir.FiniteTempBasis(stat, 1., cfg['lam'], 0., sve_result=sv,
                                          kernel=make_kernel(cfg))
            ref.high[stat] = b.uhat(high(cfg['lam'], stat))
        if cfg['cls'] == 'B':
            # power of the cutoff: see known finding of R01
            b = sparse_ir.FiniteTempBasis('B', 1 / 3, 3 * cfg['lam'], 0., sve_result=sv,
                                          max_size=1, kernel=make_kernel(cfg))
            w = 3 * cfg['lam']
            q = b.s[0] / (np.sqrt(w / 6) * ref.s[0])
            ref.power = 1 if abs(np.log(q / w)) < abs(np.log(q * w)) else -1
    return sv, ref


def full(cfg, h, sv, ref):
    """Run a whole history, in pristine processes"""
    def oracle():
        warnings.simplefilter('ignore')
        try:
            return direct(cfg, sv, wanted(ref, h))
        except Bad as e:
            return e
    st, pts = proc.run(oracle, 200)
    if st == 'ok' and isinstance(pts, Bad):
        return 'ok', {'bad': (pts.key, f'built directly: {pts.text}'), 'n': {},
                      'state': None}
    if st == 'err' and proc.library_error(pts):
        return 'ok', {'bad': ('raise', f'built directly: {proc.library_error(pts)}'),
                      'n': {}, 'state': None}
    if st != 'ok':
        raise RuntimeError(f'direct: {st} {pts}')
    blob, state = None, ([], [], 0, {})
    while True:
        def child():
            alloc.arm('plain')
            warnings.simplefilter('ignore')
            return run(cfg, h, sv, ref, pts,
                       pickle.loads(blob) if blob else state)
        st, out = proc.run(child, 200)
        if st != 'ok':
            return st, out
        if out['bad'] or out['state'] is None:
            return st, out
        blob = out['state']


def world(r, i, tier, rec):
    cfg = gen_cfg(r, tier)

    def zygote():
        alloc.arm('plain')
        try:
            sv, ref = expansion(cfg)
        except Exception:                               # noqa: B902
            return [{'steps': [], 'depth': 0}], [('err', traceback.format_exc())]
        hs, res = [], []
        for _ in range(14):
            h = gen(r, cfg, ref)
            hs.append(h)
            res.append(full(cfg, h, sv, ref))
        return hs, res
    st, got = proc.run(zygote, 900)
    if st != 'ok':
        raise RuntimeError(f'zygote: {st} {got} {cfg}')
    for h, (st, out) in zip(*got):
        sc = {'cfg': cfg, 'history': h}
        rec.n['runs'] += 1
        if st == 'err':
            raised = proc.library_error(out)
            if raised is None:
                raise RuntimeError(f'{out}\n{cfg}\n{json.dumps(h)[:3000]}')
            rec.viol.append(('raise', f'complete basis: {raised}', sc))
            continue
        if st == 'died' and any(s.get('fault', {}).get('kind') == 'alloc'
                                for s in h['steps']):
            rec.n['crashes of NumPy on failed allocation'] += 1
            continue
        if st != 'ok':
            rec.viol.append((st, f'process: {st}', sc))
            continue
        for k, v in out['n'].items():
            rec.n[k] += v
        for a, b in zip(h['steps'], h['steps'][1:]):
            rec.sets['consecutive steps'].add((a['do'], b['do']))
        if h['depth'] >= 2:
            rec.case(json.dumps(sc, sort_keys=True))
        if out['bad']:
            rec.viol.append((out['bad'][0], out['bad'][1], sc))
        elif not rec.samples and h['depth'] > 2:
            rec.samples.append({'cfg': cfg, 'steps': h['steps'][:6]})


def replay(sc):
    cfg, h = sc['cfg'], sc['history']

    def child():
        alloc.arm('plain')
        sv, ref = expansion(cfg)
        try:
            return full(cfg, h, sv, ref)
        except (TypeError, IndexError, KeyError):
            return 'ok', {'bad': None}      # reduced to nonsense
    st, got = proc.run(child, 300)
    if st == 'err' and proc.library_error(got):
        return 'raise', f'complete basis: {proc.library_error(got)}', sc
    if st != 'ok':
        raise RuntimeError(got)
    st, out = got
    if st == 'err':
        raise RuntimeError(out)
    if st != 'ok':
        return st, f'process: {st}', sc
    return out['bad'] + (sc,) if out['bad'] else None


def shrink(sc):
    h = sc['history']
    steps = h['steps']
    # creating steps are kept in place, since others refer to their numbers
    for j in range(len(steps) - 1, 0, -1):
        yield dict(sc, history=dict(h, steps=steps[:j]))
    for j, s in enumerate(steps):
        if s['do'] in ('check', 'restart', 'points', 'drop', 'roots'):
            yield dict(sc, history=dict(h, steps=steps[:j] + steps[j + 1:]))
    for j, s in enumerate(steps):
        if 'fault' in s:
            q = {k: v for k, v in s.items() if k != 'fault'}
            yield dict(sc, history=dict(h, steps=steps[:j] + [q] + steps[j + 1:]))
    # remove an object nobody refers to, renumbering
    for j in range(len(steps)):
        q = without(steps, j)
        if q is not None:
            yield dict(sc, history=dict(h, steps=q))
    if sc['cfg']['eps'] != 1e-4:
        yield dict(sc, cfg=dict(sc['cfg'], eps=1e-4))
    if sc['cfg']['lam'] != 10.:
        yield dict(sc, cfg=dict(sc['cfg'], lam=10.))


MAKES = {'pair': 2, 'set': 2, 'check': 0, 'restart': 0, 'points': 0, 'drop': 0, 'roots': 0}


def without(steps, j):
    """History without step j, if none depends on it"""
    k = MAKES.get(steps[j]['do'], 1)
    if not k:
        return None
    if steps[j]['do'] in ('slice', 'index'):
        return None             # may have made nothing
    n = 0
    for s in steps[:j]:
        if s['do'] in ('slice', 'index'):
            return None
        n += MAKES.get(s['do'], 1)
    out = steps[:j]
    for s in steps[j + 1:]:
        if 'src' in s:
            if n <= s['src'] < n + k:
                return None
            if s['src'] >= n + k:
                s = dict(s, src=s['src'] - k)
        out = out + [s]
    return out
