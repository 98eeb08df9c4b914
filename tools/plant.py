"""Verify planted changes in scratch copies (development aid, used by no check).

  plant.py make FILE      write /verif/seeded/<id>/ from a file of edits
  plant.py verify ID...   patch applies, tests pass, demo 0 without / !=0 with
  plant.py catch ID...    run this property's quick check against the change
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import concurrent.futures as cf

PY = '/opt/venv/bin/python'
SEED = '/verif/seeded'
TMP = '/tmp/plant'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def copy(tag):
    d = f'{TMP}/{tag}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d


def make(fname):
    for m in runpy.run_path(fname)['MUT']:
        d = copy('mk')
        ok = True
        for f, old, new in m['edits']:
            p = f'{d}/src/sparse_ir/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                print(m['id'], f, 'matches', t.count(old), repr(old[:60]))
                ok = False
                break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True,
                              text=True).stdout
        o = f'{SEED}/{m["id"]}'
        os.makedirs(o, exist_ok=True)
        open(f'{o}/patch.diff', 'w').write(diff)
        open(f'{o}/demo.py', 'w').write(m['demo'].lstrip('\n'))
        open(f'{o}/demo.sh', 'w').write(
            '#!/bin/bash\n'
            'export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
            'export PYTHONPATH="$PWD/src"\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\n'
            'exec timeout 280 /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(f'{o}/demo.sh', 0o755)
        json.dump({'property': m['prop'], 'needs': m['needs'],
                   'what_it_breaks': m['breaks']},
                  open(f'{o}/meta.json', 'w'), indent=1)
        open(f'{o}/meta.json', 'a').write('\n')
        print('made', m['id'])


def run(cmd, cwd, t=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                          timeout=t)


def patched(i, tag):
    d = copy(tag)
    r = run(['git', 'apply', f'{SEED}/{i}/patch.diff'], d)
    if r.returncode:
        return d, r.stderr
    return d, None


def verify(i):
    d, err = patched(i, 'v_' + i)
    try:
        if err:
            return i, 'PATCH ' + err
        demo = ['bash', f'{SEED}/{i}/demo.sh']
        a = run(demo, '/repo', 300)
        b = run(demo, d, 300)
        x = f'{TMP}/{i}.xml'
        t = run([PY, '-m', 'pytest', 'test', '-q', '-p', 'no:cacheprovider',
                 '--timeout=300', '-x', '-o', 'junit_family=xunit2',
                 '--junitxml=' + x], d, PYTHONPATH=d + '/src',
                PYTHONHASHSEED='0')
        os.path.exists(x) and os.remove(x)
        return i, (f'demo {a.returncode}/{b.returncode} '
                   f'tests {t.stdout.strip().splitlines()[-1]}'
                   + ('' if a.returncode == 0 else '\n  CLEAN: ' +
                      (a.stdout + a.stderr)[-400:])
                   + ('' if b.returncode else '  DEMO PASSES WITH PATCH')
                   + '\n  ' + (b.stdout + b.stderr).strip()[-160:]
                   + ('' if t.returncode == 0 else '\n  TESTS ' +
                      t.stdout[-600:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch(i, props=None, extra=()):
    d, err = patched(i, 'c_' + i)
    try:
        if err:
            return i, 'PATCH ' + err
        out = []
        for p in props or [json.load(open(f'{SEED}/{i}/meta.json'))['property']]:
            r = run([PY, '-B', '-m', 'dst', 'check', p, *extra], '/verif',
                    1000, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick')
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            out.append(f'{p}: rc {r.returncode} {v[:1]}'
                       + (r.stdout + r.stderr)[-300:] * (r.returncode not in (0, 1)))
        return i, ' | '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    what, *a = sys.argv[1:]
    if what == 'make':
        make(a[0])
    elif what == 'verify':
        with cf.ThreadPoolExecutor(8) as ex:
            for i, m in ex.map(verify, a or sorted(os.listdir(SEED))):
                print(i, m, flush=True)
    elif what == 'catch':
        props = None
        if a and a[0].startswith('props='):
            props = a.pop(0)[6:].split(',')
        for i in a or sorted(os.listdir(SEED)):
            print(*catch(i, props), flush=True)
