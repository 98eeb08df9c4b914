"""B02: reduced installations warn and still deliver what they promise."""
import importlib
import json
import sys
import warnings

import numpy as np

from .. import alloc, proc
from .b01 import kernel_exact

PROP = 'B02'
PLAN = {'quick': (1500, 60), 'thorough': (60000, 760)}
RULE = ('A case is one start of the library in a simulated installation (extended '
        'precision missing, broken, or appearing or vanishing between the '
        'imports of two parts of the library; accurate Jacobi driver missing; '
        'combinations) followed by up to three '
        'earlier requests and one request that is judged (expansion, basis, pair of '
        'bases, basis set, irbasis adapter, pole representation, augmented '
        'basis) and its use. Numbers are compared with the full installation on '
        'the same request and with analytic propagators; warnings are recorded. '
        'Non-trivial: at least one component was missing at some time and the '
        'request touches it or its accuracy. Distinct: by installation and '
        'request.')
REAL = ['all of sparse_ir from the working tree, imported anew for every case',
        'NumPy', 'SciPy', 'xprec where present']
STUB = ['import machinery: presence of xprec, xprec.linalg and of LAPACK dgejsv']
ASSUME = ['a request that names the solver explicitly need not be warned about '
          'accuracy (says the code, "we assume they know what they are doing")',
          'the documented default of compute_sve without extended precision is '
          '1e-8 and needs no warning there']
XP = ['none', 'missing', 'broken', 'late', 'gone']


# ------------------------------------------------------------- installations

class Modules:
    NAMES = ('sve', 'kernel', 'adapter', 'dlr', 'augment', 'basis', 'basis_set',
             'sampling', 'svd')

    def __init__(self):
        self.top = importlib.import_module('sparse_ir')
        for n in self.NAMES:
            if n != 'adapter':
                setattr(self, n, importlib.import_module('sparse_ir.' + n))


def hide(names):
    saved = {}
    for k in list(sys.modules):
        if any(k == n or k.startswith(n + '.') for n in names):
            saved[k] = sys.modules.pop(k)
    for n in names:
        sys.modules[n] = None
    return saved


def restore(names, saved):
    for n in names:
        sys.modules.pop(n, None)
    sys.modules.update(saved)


def start(inst):
    """Import the library in the given installation"""
    import scipy.linalg.lapack as lp
    import xprec.linalg                                     # noqa: F401
    for k in [k for k in sys.modules if k.split('.')[0] == 'sparse_ir']:
        del sys.modules[k]
    if inst['dgejsv'] == 'missing':
        del lp.dgejsv
    xp = inst['xprec']
    names = {'missing': ['xprec'], 'late': ['xprec'],
             'broken': ['xprec.linalg']}.get(xp, [])
    saved = hide(names)
    m = Modules()
    if xp == 'late':
        restore(names, saved)
    if xp == 'gone':
        hide(['xprec'])
    m.adapter = importlib.import_module('sparse_ir.adapter')
    return m


# ------------------------------------------------------------------- requests

def build(m, q):
    """Objects asked for: dictionary"""
    lam, eps, stat = q['lam'], q['eps'], q['stat']
    beta = q['beta']
    wmax = lam / beta
    kind = q['kind']
    K = (m.kernel.RegularizedBoseKernel if q['cls'] == 'B' else
         m.kernel.LogisticKernel)(lam)
    out = {}
    if kind == 'sve':
        kw = {}
        if q.get('strat'):
            kw['svd_strat'] = q['strat']
        if q.get('work'):
            kw['work_dtype'] = np.float64
        if q.get('sve'):
            kw['sve_strat'] = getattr(m.sve, q['sve'])
        if q.get('cutoff'):
            kw['cutoff'] = q['cutoff']
        out['sve'] = m.top.compute_sve(K, eps, **kw)
        return out
    if kind == 'adapter':
        out['adapter'] = m.adapter.load(q['cls'] == 'B' and 'B' or 'F', lam)
        return out
    if kind == 'bases':
        f, b = m.top.finite_temp_bases(beta, wmax, eps)
        out['basis'] = f if stat == 'F' else b
    elif kind == 'set':
        s = m.top.FiniteTempBasisSet(beta, wmax, eps)
        out['basis'] = s.basis_f if stat == 'F' else s.basis_b
        out['tau'] = s.smpl_tau_f if stat == 'F' else s.smpl_tau_b
        out['wn'] = s.smpl_wn_f if stat == 'F' else s.smpl_wn_b
    else:
        kw = {'kernel': K} if q['cls'] == 'B' else {}
        if q.get('max_size'):
            kw['max_size'] = q['max_size']
        out['basis'] = m.top.FiniteTempBasis(stat, beta, wmax, eps, **kw)
    if q.get('then') == 'dlr':
        out['dlr'] = m.dlr.DiscreteLehmannRepresentation(out['basis'])
    elif q.get('then') == 'aug':
        out['aug'] = m.augment.AugmentedBasis(out['basis'], m.augment.TauConst)
    elif q.get('then') == 'rescale':
        out = {'basis': out['basis'].rescale(2 * beta)}
    elif q.get('then') == 'cut':
        b = out['basis']
        out = {'basis': b[:max(1, b.size // 2)]}
    elif q.get('then') == 'smpl':
        out['tau'] = m.top.TauSampling(out['basis'])
        out['wn'] = m.top.MatsubaraSampling(
            out['basis'], positive_only=bool(q.get('pos')))
    return out


X = np.hstack([-1, np.linspace(-1, 1, 9) ** 3 * .999, .5, 1])
Y = np.array([-1, -.8, -.31, -.1, -.01, .001, .02, .13, .4, .77, 1.0])


def summary(m, q, o):
    r = {}
    lam = q['lam']
    if 'sve' in o or 'adapter' in o:
        if 'sve' in o:
            u, s, v = o['sve'].u, o['sve'].s, o['sve'].v
            r['part'] = int(np.asarray(o['sve'].part()[1]).size)
            ux, vy = u(X), v(Y)
        else:
            a = o['adapter']
            s = np.asarray(a.sl())
            ux = np.array([[a.ulx(l, x) for x in X] for l in range(a.dim())])
            vy = np.array([[a.vly(l, y) for y in Y] for l in range(a.dim())])
            un = a.compute_unl([0, 1, 5])
            r['unl'] = np.asarray(un)[:, :6]
        r['s'] = np.asarray(s, float)
        r['u'], r['v'] = np.asarray(ux), np.asarray(vy)
        r['K'] = np.einsum('lx,l,ly->xy', ux, s, vy)
        with np.errstate(all='ignore'):
            K = kernel_exact(q['cls'], lam, X[:, None], Y[None, :])
        r['K0'] = np.asarray(K, float)
        r['terms'] = s * np.abs(ux).max(axis=1) * np.abs(vy).max(axis=1)
        return r
    b = o['basis']
    beta, wmax = b.beta, b.wmax
    r['s'] = np.asarray(b.s)
    r['accuracy'] = float(b.accuracy)
    tau = (X + 1) * beta / 2
    om = Y * wmax
    n = np.array([1, 3, -5, 21, 201]) if b.statistics == 'F' else \
        np.array([2, 4, -6, 20, 200])
    r['u'] = b.u(tau) * np.sqrt(beta / 2)
    r['v'] = b.v(om) * np.sqrt(wmax)
    rho = b.s[:, None] * b.v(om)
    # everything in units of the largest value
    with np.errstate(all='ignore'):
        K = kernel_exact(q['cls'], b.lambda_, X[:, None], Y[None, :])
    scale = wmax if q['cls'] == 'B' else 1.0
    r['K0'] = np.asarray(K, float)
    r['K'] = (b.u(tau).T @ rho) / scale
    r['terms'] = np.abs(b.u(tau)).max(axis=1) * np.abs(rho).max(axis=1) / scale
    r['G'] = (b.uhat(n).T @ rho) / scale / beta
    iv = 1j * np.pi * n[:, None] / beta
    w = om[None, :]
    if q['cls'] == 'B':
        r['G0'] = -w / (iv - w) / scale / beta
    elif b.statistics == 'F':
        r['G0'] = -1 / (iv - w) / beta
    else:
        r['G0'] = -np.tanh(beta * w / 2) / (iv - w) / beta
    gl = rho[:, 3]
    if 'tau' in o:
        sm = o['tau']
        r['fit tau'] = np.abs(sm.fit(sm.evaluate(gl)) - gl).max() / np.abs(gl).max()
        sm = o['wn']
        g2 = sm.fit(sm.evaluate(gl))
        r['fit wn'] = np.abs(g2 - gl).max() / np.abs(gl).max()
    if 'dlr' in o:
        d = o['dlr']
        p = d.from_IR(gl)
        r['dlr'] = np.abs(d.u(tau).T @ p - b.u(tau).T @ gl).max() / \
            np.abs(b.u(tau).T @ gl).max()
    if 'aug' in o:
        a = o['aug']
        r['aug'] = int(a.size - b.size)
        sm = m.top.TauSampling(a)
        z = np.hstack([[.3], gl])
        if not q['eps'] or q['eps'] < 1e-8:
            # nearly dependent functions: only the values are determined
            z, z0 = sm.evaluate(sm.fit(sm.evaluate(z))), sm.evaluate(z)
        else:
            z, z0 = sm.fit(sm.evaluate(z)), z
        r['fit aug'] = np.abs(z - z0).max()
    return r


def one(m, q):
    w = []

    def show(message, category, filename, lineno, file=None, line=None):
        w.append((category.__name__, str(message)))
    warnings.resetwarnings()
    warnings.simplefilter('always')
    old = warnings.showwarning
    warnings.showwarning = show
    try:
        o = build(m, q)
        nw = len(w)
        s = summary(m, q, o)
        s['warn'] = w[:nw]
        return s
    except Exception as e:                              # noqa: B902
        import traceback
        return {'exc': f'{type(e).__name__}: {e}',
                'where': traceback.format_exc(limit=-3)}
    finally:
        warnings.showwarning = old
        warnings.simplefilter('ignore')


def run_case(inst, q, before=()):
    alloc.arm('plain')
    full = Modules()
    full.adapter = importlib.import_module('sparse_ir.adapter')
    ref = one(full, q)
    try:
        m = start(inst)
    except Exception as e:                              # noqa: B902
        return ref, {'exc': f'at import: {type(e).__name__}: {e}'}
    if m.top is full.top:
        raise RuntimeError('library was not imported anew')
    for p in before:
        one(m, p)
    return ref, one(m, q)


# -------------------------------------------------------------------- verdict

def reduced(inst):
    """Is extended precision unavailable to the solver?"""
    return inst['xprec'] in ('missing', 'broken', 'late')


def must_warn(inst, q):
    """List of reasons for which a warning is due"""
    out = []
    nox, noj = reduced(inst), inst['dgejsv'] == 'missing'
    eps = q['eps']
    low = q.get('work') or nox
    if eps is not None and eps < 2e-16 and not low and not q.get('strat'):
        out.append(f'accuracy {eps} requested, 2.2e-16 delivered')
    if q['kind'] == 'adapter':
        if nox:
            out.append('default accuracy of irbasis not reached')
        return out
    if eps is not None and eps < 1e-8 and not q.get('strat') and low:
        out.append(f'accuracy {eps} requested, 1e-8 delivered')
        if noj:
            out.append('accurate solver missing')
    if eps is None and nox and q['kind'] != 'sve':
        out.append('default accuracy of bases not reached')
    if noj and q.get('strat') == 'accurate' and (
            q.get('work') or nox or (eps is not None and eps >= 1e-8)):
        out.append('accurate solver missing')
    if noj and q.get('then') == 'dlr':
        out.append('accurate solver missing')
    return out


def check(inst, q, ref, got, worst=None):
    v = check1(inst, q, ref, got, worst)
    # see KNOWN_FINDINGS.txt
    if v and q['eps'] is not None and q['eps'] < 2e-13 and (
            reduced(inst) or q.get('work')):
        if v[0] == 'raises' and ('set of Matsubara points not ordered' in v[1]
                                 or v[1].startswith('IndexError')):
            return 'noise-sampling-points', v[1]
        if v[0] in ('fit tau', 'fit wn'):
            return 'noise-fit', v[1]
    return v


def check1(inst, q, ref, got, worst=None):
    def note(k, v):
        if worst is not None:
            worst[k] = max(worst.get(k, 0), float(v))
    if 'exc' in ref:
        return 'harness', f'full installation: {ref["exc"]}'
    if 'exc' in got:
        return 'raises', got['exc'] + ' ' + got.get('where', '')
    need = must_warn(inst, q)
    if need and not got['warn']:
        return 'silent', f'no warning at all ({", ".join(need)})'
    if 'accurate solver missing' in need and not any(
            'svd' in t.lower() or 'jsv' in t.lower() or 'jacobi' in t.lower()
            for _, t in got['warn']):
        return 'silent', f'no warning about missing solver: {got["warn"]}'
    want = [x for x in need if 'accurate solver' not in x]
    if want and not any(k for k in got['warn'] if 'dgejsv' not in k[1]):
        return 'silent', f'no warning about accuracy ({want[0]})'
    eps = q['eps']
    acc = max(1e-8, eps or 0)
    # the reference may itself be limited
    cut = max(acc, q.get('cutoff') or 0)
    s0, s1 = ref['s'], got['s']
    n = min(s0.size, s1.size)
    if not np.isfinite(s1).all():
        return 'finite', 'singular values not finite'
    d = np.abs(s1[:n] - s0[:n]).max() / s0[0]
    note('s', d / acc)
    if not d <= acc:
        return 'singular values', f'differ by {d:.3g}'
    if not q.get('max_size'):
        half = 2 if q.get('then') == 'cut' else 1
        lo = int((s0 > 2 * cut * s0[0]).sum())
        if q.get('then') != 'cut' and s1.size < lo:
            return 'number', f'{s1.size} functions, full installation {s0.size}'
        if eps is not None and eps >= 1e-8 and half == 1:
            hi = int((s0 >= .9 * eps * s0[0]).sum())
            if q['kind'] != 'sve' and s1.size > hi + 1:
                return 'number', f'{s1.size} functions instead of {s0.size}'
    # single functions
    rel = s0[:n] / s0[0]
    good = rel > 20 * acc
    gap = np.abs(np.diff(np.hstack([2.0, s0 / s0[0], 0.0])))
    gap = np.minimum(gap[:-1], gap[1:])[:n]
    for nm in 'uv':
        a, b = got[nm][:n][good], ref[nm][:n][good]
        if not good.any():
            continue
        e = np.abs(a - b).max(axis=1) / np.abs(b).max(axis=1)
        tol = 10 * acc + 3e-12 / gap[good]
        note('fun ' + nm, (e / tol).max())
        if not (e <= tol).all():
            l = int((e / tol).argmax())
            return f'function {nm}', f'{nm}[{l}] differs by {e[l]:.3g}'
    # sums over all functions: error is that of functions cut off
    tail = 2 * ref['terms'][s0 < 2 * cut * s0[0]].sum()
    for nm in ('K', 'G'):
        if nm not in ref:
            continue
        sc = np.abs(ref[nm]).max()
        e0 = np.abs(ref[nm] - ref[nm + '0']).max()
        e1 = np.abs(got[nm] - got[nm + '0']).max()
        d = np.abs(got[nm] - ref[nm]).max()
        tol = tail + (4 * acc + 3e-13) * sc
        if q.get('max_size') or q.get('then') == 'cut':
            # the same functions are left out
            k = max(s0.size, s1.size) - n
            if k == 0 and (rel > 20 * acc).all():
                note('cut ' + nm, d / (tol + 1e-6 * e0))
                if not d <= tol + 1e-6 * e0:
                    return f'cut {nm}', f'truncated sum differs by {d:.3g}'
            continue
        note(nm, e1 / (2 * e0 + tol))
        if not e1 <= 2 * e0 + tol:
            return f'propagator {nm}', (f'off by {e1:.3g} of {sc:.3g}, full '
                                        f'installation {e0:.3g}')
        note('diff ' + nm, d / (3 * e0 + tol))
        if not d <= 3 * e0 + tol:
            return f'propagator {nm}', f'differs by {d:.3g} of {sc:.3g}'
    for k in ('fit tau', 'fit wn', 'fit aug', 'dlr'):
        if k in ref:
            tol = 100 * ref[k] + (1e-8 if k != 'dlr' else acc)
            if k == 'fit aug':
                tol *= 10
            note(k, got[k] / tol)
            if not got[k] <= tol:
                return k, f'{k}: error {got[k]:.3g}, full installation {ref[k]:.3g}'
    return None


# ---------------------------------------------------------------------- worlds

def gen(r, tier):
    inst = {'xprec': r.choice(['missing'] * 5 + XP),
            'dgejsv': r.choice(['missing', 'present'])}
    q = {'kind': r.choice(['sve', 'sve', 'basis', 'basis', 'basis', 'bases', 'set',
                           'adapter']),
         'cls': r.choice('LLB'), 'stat': r.choice('FB'),
         'beta': r.choice([1.0, 2.0, 10.0, round(r.uniform(.2, 50), 3)])}
    q['eps'] = r.choice([None, None, None, 1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 9e-9, 1e-8,
                         1e-8, 1e-7, 1e-6, 1e-4, 1e-2])
    fine = q['eps'] is None or q['eps'] < 1e-8
    if fine:
        q['lam'] = r.choice([1.0, 2.5, 10.0, 42.0, round(10 ** r.uniform(-1, 1.3), 3)])
    else:
        q['lam'] = r.choice([1.0, 10.0, 42.0, 100.0, 1e3,
                             round(10 ** r.uniform(-1, 3), 3)])
    k = q['kind']
    if k in ('sve', 'basis') and r.random() < .06:
        # as accurate as possible
        q['eps'] = r.choice([0.0, 0.0, 1e-20, 1e-300])
        q['lam'] = r.choice([1.0, 2.5, 10.0])
        if q['cls'] == 'B':
            q['stat'] = 'B'
        if k == 'sve' and r.random() < .3:
            q['work'] = 1
        return inst, q
    if k == 'sve':
        if r.random() < .4:
            q['strat'] = r.choice(['accurate', 'accurate', 'default', 'fast'])
            if q['eps'] is not None and q['eps'] < 1e-8 and r.random() < .5:
                q['eps'] = 1e-8
        if r.random() < .25:
            q['work'] = 1
        if r.random() < .25:
            q['sve'] = r.choice(['SamplingSVE', 'CentrosymmSVE'])
            if fine and not q.get('work'):
                q['sve'] = 'CentrosymmSVE'
        if r.random() < .15:
            q['cutoff'] = r.choice([1e-12, 1e-9, 1e-6])
    elif k == 'adapter':
        q['eps'] = None
        q['lam'] = r.choice([1.0, 2.5, 10.0, 42.0])
    else:
        if k != 'basis':
            q['cls'] = 'L'
        if q['cls'] == 'B':
            q['stat'] = 'B'
        q['then'] = r.choice(['', 'dlr', 'aug', 'rescale', 'cut', 'smpl', 'smpl'])
        if q['then'] == 'dlr' and q['cls'] == 'B':
            q['then'] = ''
        if q['then'] == 'aug' and q['stat'] == 'F':
            q['then'] = 'smpl'
        if q['then'] == 'smpl' and r.random() < .3:
            q['pos'] = 1
        if k == 'basis' and r.random() < .15:
            q['max_size'] = r.randint(2, 12)
    return inst, q


def gen_before(r, tier, q):
    """Requests made earlier in the same process"""
    out = []
    while r.random() < .3 and len(out) < 3:
        if r.random() < .6:
            p = dict(q)
            if r.random() < .5 and not p.get('max_size'):
                p['lam'] = round(p['lam'] * r.choice([1.0, 1.5, .7]), 6)
            if r.random() < .2 and p['eps']:
                p['eps'] *= .1
        else:
            p = gen(r, tier)[1]
        out.append(p)
    return out


def nontrivial(inst, q):
    return inst['xprec'] != 'none' or inst['dgejsv'] == 'missing'


WORST = None


def world(r, i, tier, rec):
    inst, q = gen(r, tier)
    before = gen_before(r, tier, q)
    st, out = proc.run(lambda: run_case(inst, q, before), 300)
    sc = {'inst': inst, 'q': q, 'before': before}
    if st == 'err':
        raised = proc.library_error(out)
        if raised is None:
            raise RuntimeError(out)
        rec.n['runs'] += 1
        rec.viol.append(('raise', f'{sc}: {raised}', sc))
        return
    rec.n['earlier requests in the same process'] += len(before)
    rec.n['runs'] += 1
    rec.n['steps'] += 1
    for k, v in inst.items():
        if v not in ('none', 'present'):
            rec.n[f'fault:{k} {v}'] += 1
    if st != 'ok':
        rec.viol.append((st, f'{sc}: process: {st}', sc))
        return
    worst = {}
    v = check(inst, q, *out, worst)
    if v and v[0] == 'harness':
        rec.n['full installation raises'] += 1
        rec.sets['full installation raises'].add(v[1])
        return
    if nontrivial(inst, q):
        rec.case(json.dumps(sc, sort_keys=True))
    rec.n['warnings due'] += bool(must_warn(inst, q))
    rec.sets['installations'].add(json.dumps(inst, sort_keys=True))
    if WORST is not None:
        for k, x in worst.items():
            if x > WORST.get(k, (0,))[0]:
                WORST[k] = (x, inst, q)
    if v:
        rec.viol.append((v[0], f'installation {inst}, request {q}'
                         + (f' after {before}' if before else '')
                         + f': {v[1]}', sc))
    elif not rec.samples:
        rec.samples.append(dict(sc, warnings=out[1].get('warn'),
                                largest_deviation_relative_to_tolerance=worst))


def replay(sc):
    st, out = proc.run(lambda: run_case(sc['inst'], sc['q'],
                                        sc.get('before', ())), 300)
    if st == 'err':
        raised = proc.library_error(out)
        if raised is None:
            raise RuntimeError(out)
        return 'raise', f'{sc}: {raised}'
    if st != 'ok':
        return st, f'process: {st}'
    v = check(sc['inst'], sc['q'], *out)
    return (v[0], f'installation {sc["inst"]}, request {sc["q"]}: {v[1]}') \
        if v else None


def shrink(sc):
    q = sc['q']
    bef = sc.get('before') or []
    if bef:
        yield dict(sc, before=[])
        for j in range(len(bef)):
            yield dict(sc, before=bef[:j] + bef[j + 1:])
            yield dict(sc, before=bef[:j] + [q] + bef[j + 1:])
    for k, v in (('xprec', 'none'), ('dgejsv', 'present')):
        if sc['inst'][k] != v:
            yield dict(sc, inst=dict(sc['inst'], **{k: v}))
    for k in ('then', 'max_size', 'cutoff', 'sve', 'work', 'strat', 'pos'):
        if q.get(k):
            yield dict(sc, q={a: b for a, b in q.items() if a != k})
    if q['kind'] in ('bases', 'set'):
        yield dict(sc, q=dict(q, kind='basis'))
    if q['lam'] != 1.0:
        yield dict(sc, q=dict(q, lam=1.0))
    if q['beta'] != 1.0:
        yield dict(sc, q=dict(q, beta=1.0))
