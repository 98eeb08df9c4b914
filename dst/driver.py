"""Run a check: many simulated worlds over all cores, minimise, report."""
import collections
import hashlib
import json
import mmap
import os
import random
import struct
import subprocess
import sys
import time
import traceback

from . import boot, proc

NPROC = int(os.environ.get('VERIF_WORKERS', 0)) or min(8, os.cpu_count() or 1)
EVID = os.path.join(boot.VERIF, 'evidence')
REPLAYS = os.path.join(boot.VERIF, 'replays')
FINDINGS = os.path.join(boot.VERIF, 'KNOWN_FINDINGS.txt')


def known_findings(prop):
    """key -> description of accepted findings"""
    out = {}
    try:
        with open(FINDINGS) as f:
            for line in f:
                if not line.startswith('finding:'):
                    continue
                d = {}
                for w in line.split():
                    if '=' in w and w.split('=')[0] in ('property', 'key'):
                        k, v = w.split('=', 1)
                        d[k] = v
                if d.get('property') == prop and d.get('key'):
                    out[d['key']] = line.split('what=', 1)[-1].strip()
    except FileNotFoundError:
        pass
    return out


class Rec:
    """What a world reports"""
    def __init__(self):
        self.n = collections.Counter()     # named counts
        self.distinct = set()              # hashes of distinct cases
        self.sets = collections.defaultdict(set)
        self.viol = []                     # (key, what, scenario)
        self.samples = []
        self.errors = []

    def case(self, x):
        self.distinct.add(int.from_bytes(hashlib.blake2b(
            repr(x).encode(), digest_size=8).digest(), 'big'))

    def digest(self):
        """Everything observed, for comparing two executions"""
        return repr((sorted(self.n.items()), sorted(self.distinct),
                     sorted((k, sorted(map(repr, v))) for k, v in self.sets.items()),
                     [(v[0], v[1]) for v in self.viol], len(self.errors),
                     json.dumps(self.samples, sort_keys=True, default=repr)))

    def merge(self, o):
        self.n.update(o.n)
        self.distinct |= o.distinct
        for k, v in o.sets.items():
            self.sets[k] |= v
        self.viol += o.viol
        self.samples += o.samples[:1]
        self.errors += o.errors


def seed_for(seed, prop, w):
    return random.Random(f'{seed}:{prop}:{w}')


def explore(mod, tier, seed, worlds, cap, stop_on_violation=True, nproc=None,
            known=(), keep=None):
    """Run ``worlds`` worlds; returns merged record and per-world digests"""
    t0 = time.monotonic()
    r, w = os.pipe()
    os.set_blocking(w, False)
    pending = list(range(worlds))
    flag = mmap.mmap(-1, 64)
    nproc = nproc or NPROC
    pids = []
    files = []
    import tempfile
    for k in range(nproc):
        fd, path = tempfile.mkstemp(prefix='dst-')
        os.unlink(path)
        files.append(fd)
        pid = os.fork()
        if pid:
            pids.append(pid)
            continue
        # ------------------------------------------------ worker
        code = 0
        try:
            os.close(w)
            out = os.fdopen(fd, 'wb')
            import pickle
            while True:
                if flag[0] and stop_on_violation:
                    break
                if time.monotonic() - t0 > cap:
                    break
                tok = os.read(r, 4)
                if len(tok) < 4:
                    break
                i, = struct.unpack('<I', tok)
                rec = Rec()
                try:
                    mod.world(seed_for(seed, mod.PROP, i), i, tier, rec)
                except Exception:                       # noqa: B902
                    rec.errors.append((i, traceback.format_exc()))
                if any(v[0] not in known for v in rec.viol):
                    flag[0] = 1
                pickle.dump((i, rec), out, 4)
                out.flush()
        except BaseException:                           # noqa: B902
            traceback.print_exc()
            code = 3
        finally:
            try:
                out.flush()
            except Exception:                           # noqa: B902
                pass
            os._exit(code)
    os.close(r)
    # feed the queue
    data = b''.join(struct.pack('<I', i) for i in pending)
    pos = 0
    alive = set(pids)
    bad = []
    wopen = True
    signalled = False
    while alive:
        if wopen:
            try:
                if pos < len(data):
                    n = os.write(w, data[pos:pos + 4096])
                    pos += n
                if pos >= len(data):
                    os.close(w)
                    wopen = False
            except BlockingIOError:
                pass
            except BrokenPipeError:
                os.close(w)
                wopen = False
        for pid in list(alive):
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                alive.discard(pid)
                if st:
                    bad.append(st)
        if time.monotonic() - t0 > cap + 200 and not signalled:
            signalled = True
            bad.append('worker exceeded time')
            for pid in alive:
                os.kill(pid, 9)
        time.sleep(.02)
    if wopen:
        os.close(w)
    import pickle
    total = Rec()
    done = {}
    for fd in files:
        f = os.fdopen(fd, 'rb')
        f.seek(0)
        while True:
            try:
                i, rec = pickle.load(f)
            except EOFError:
                break
            except Exception:                           # noqa: B902
                break
            done[i] = rec
        f.close()
    for i in sorted(done):
        rec = done[i]
        if keep is not None:
            keep[i] = rec.digest()
        rec.viol = [(i,) + tuple(v) for v in rec.viol]
        total.merge(rec)
    total.n['worlds'] = len(done)
    total.n['worlds planned'] = worlds
    if bad:
        total.errors.append((-1, f'workers ended badly: {bad}'))
    total.elapsed = time.monotonic() - t0
    return total


def isolate(fn, timeout=300):
    st, v = proc.run(fn, timeout)
    if st != 'ok':
        raise boot.HarnessError(f'{st}: {v}')
    return v


def minimise(mod, sc, key, budget):
    """Greedy reduction while the same kind of violation persists"""
    end = time.monotonic() + budget
    tries = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in mod.shrink(sc):
            if time.monotonic() > end:
                break
            tries += 1
            try:
                v = mod.replay(cand)
            except boot.HarnessError:
                continue
            if v and v[0] == key:
                # replay may return a more explicit scenario
                sc = v[2] if len(v) > 2 and v[2] else cand
                progress = True
                break
    return sc, tries


def prepare(mod, tier):
    """Once, before the workers are forked"""
    if getattr(mod, 'HOT', False):
        from . import hot
        n = hot.prepare()
        if n:
            print(f'{n} operations and recipes touch state kept between calls',
                  flush=True)
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)


def main(mod, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from . import execute
    print(f'{mod.PROP}: seed {seed}, tier {tier}, {NPROC} workers', flush=True)
    t0 = time.monotonic()
    execute.setup()
    prepare(mod, tier)
    worlds, cap = mod.PLAN[tier]
    if os.environ.get('VERIF_WORLDS'):
        worlds = int(os.environ['VERIF_WORLDS'])
    if os.environ.get('VERIF_CAP'):
        cap = float(os.environ['VERIF_CAP'])
    known = known_findings(mod.PROP)
    tot = explore(mod, tier, seed, worlds, cap, known=known)
    if hasattr(mod, 'extra'):
        mod.extra(tot, tier, seed)
    code = 0
    seen = set()
    reported = 0
    hit = set()
    for (i, key, what, sc) in sorted(tot.viol, key=lambda v: v[0]):
        if key in seen:
            continue
        seen.add(key)
        if key in known:
            hit.add(key)
            continue
        if reported >= 3:
            continue
        reported += 1
        code = 1
        report(mod, i, key, what, sc, seed, tier, 100 if reported == 1 else 30)
    for key in known:
        print(f'KNOWN-FINDING: property={mod.PROP} {known[key]}'
              + ('' if key in hit else ' (not reached in this run)'))
    write_evidence(mod, tot, tier, seed, time.monotonic() - t0, len(seen))
    for e in tot.errors[:5]:
        print('HARNESS ERROR in world', e[0], '\n', e[1], file=sys.stderr)
    n = tot.n
    print(f"{mod.PROP}: {n['runs']} runs in {n['worlds']}/{n['worlds planned']} worlds, "
          f"{len(tot.distinct)} distinct, {len(seen)} kinds of violation, "
          f"{time.monotonic() - t0:.0f} s", flush=True)
    if code == 0 and (tot.errors or not n['runs']):
        code = 2
    if code == 0 and n['worlds'] < max(1, min(worlds // 20, 8)):
        print('too few worlds finished', file=sys.stderr)
        code = 2
    return code


def report(mod, i, key, what, sc, seed, tier, budget):
    print(f'world {i}: {key}: {what}', flush=True)
    os.makedirs(REPLAYS, exist_ok=True)
    small, tries = sc, 0
    try:
        v = mod.replay(sc)
        if v and v[0] == key:
            small, tries = minimise(mod, v[2] if len(v) > 2 and v[2] else sc,
                                    key, budget)
            v = mod.replay(small)
            if v:
                what = v[1]
    except Exception:                                   # noqa: B902
        traceback.print_exc()
    name = hashlib.blake2b(json.dumps(small, sort_keys=True, default=str)
                           .encode(), digest_size=5).hexdigest()
    path = os.path.join(REPLAYS, f'{mod.PROP}-{seed}-{name}.json')
    doc = {'property': mod.PROP, 'seed': seed, 'world': i, 'key': key,
           'what': what, 'tier': tier, 'shrink_attempts': tries,
           'scenario': small}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    p = subprocess.run([sys.executable, '-B', '-m', 'dst', 'replay', path],
                       cwd=boot.VERIF, capture_output=True, text=True,
                       timeout=400)
    ok = f'REPRODUCED key={key}' in p.stdout
    if not ok:
        with open(path, 'w') as f:
            doc['scenario'] = sc
            json.dump(doc, f, indent=1)
        p = subprocess.run([sys.executable, '-B', '-m', 'dst', 'replay', path],
                           cwd=boot.VERIF, capture_output=True, text=True,
                           timeout=400)
        ok = 'REPRODUCED' in p.stdout
    doc['reproduced_in_fresh_process'] = ok
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    print(f'  minimised: {what}')
    print(f'  replay in a fresh process: {"reproduced" if ok else "NOT reproduced"}'
          f' ({tries} reduction attempts)')
    print(f'VIOLATION property={mod.PROP} replay={path}', flush=True)


def replay_main(path):
    import importlib
    with open(path) as f:
        doc = json.load(f)
    mod = importlib.import_module(f'dst.checks.{doc["property"].lower()}')
    from . import execute
    execute.setup()
    mod.prepare('quick') if hasattr(mod, 'prepare') else None
    v = mod.replay(doc['scenario'])
    if v:
        print(f'REPRODUCED key={v[0]}\n{v[1]}')
        return 1
    print('NOT REPRODUCED')
    return 0


def write_evidence(mod, tot, tier, seed, wall, kinds):
    os.makedirs(EVID, exist_ok=True)
    n = tot.n
    hours = max(tot.elapsed, 1e-9) / 3600
    cov = {
        'evaluations': int(n['runs']),
        'distinct_nontrivial': len(tot.distinct),
        'rule': mod.RULE,
        'samples': tot.samples[:4] or ['no run completed'],
        'worlds': int(n['worlds']),
        'worlds_planned': int(n['worlds planned']),
        'seeds': f'one per world, derived from {seed}:{mod.PROP}:<world>',
        'runs_per_hour': int(n['runs'] / hours),
        'seeds_per_hour': int(n['worlds'] / hours),
        'simulated_time': f"{n['steps']} intercepted execution points "
                          "(the library has no clock or timer)",
        'counts': {k: int(v) for k, v in sorted(n.items())
                   if not k.startswith('fault:') and k not in
                   ('runs', 'worlds', 'worlds planned', 'steps')},
        'distinct': {k: len(v) for k, v in sorted(tot.sets.items())},
        'faults_fired': {k[6:]: int(v) for k, v in sorted(n.items())
                         if k.startswith('fault:')},
        'real_components': mod.REAL,
        'stubbed_components': mod.STUB,
        'harness_errors': len(tot.errors),
    }
    doc = {'property': mod.PROP, 'tier': tier, 'seed': seed,
           'level': 'exploration', 'coverage': cov,
           'assumptions': mod.ASSUME, 'wall_s': round(wall, 2),
           'violations': kinds}
    path = os.path.join(EVID, f'{mod.PROP}.json')
    tmp = f'{path}.{os.getpid()}'
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, path)
