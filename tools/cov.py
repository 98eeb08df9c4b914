"""Which lines of the library a check executes (development aid).

  cov.py ID [ID...]     environment as for the checks (VERIF_WORLDS, ...)

Prints, for each source file, the lines no simulated run has reached.
"""
import ast
import mmap
import os
import subprocess
import sys

SRC = os.path.realpath(os.environ.get('VERIF_REPO', '/repo') + '/src/sparse_ir')
FILES = sorted(f for f in os.listdir(SRC) if f.endswith('.py'))


def body_lines(f):
    out = set()
    for n in ast.walk(ast.parse(open(f'{SRC}/{f}').read())):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            b = n.body if isinstance(n.body, list) else [n.body]
            for s in b:
                for x in ast.walk(s):
                    if isinstance(x, ast.stmt) and not (
                            isinstance(x, ast.Expr) and
                            isinstance(x.value, ast.Constant)):
                        out.add(x.lineno)
    return out


def child(prop, out):
    mm = mmap.mmap(os.open(out, os.O_RDWR), len(FILES) * 4096)
    idx = {f'{SRC}/{f}': i * 4096 for i, f in enumerate(FILES)}
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, 'cov')

    def line(code, no):
        base = idx.get(code.co_filename)
        if base is not None:
            mm[base + no] = 1
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    sys.path.insert(0, '/verif')
    os.chdir('/verif')
    sys.argv = ['dst', 'check', prop]
    import dst.__main__
    return dst.__main__


if __name__ == '__main__':
    if sys.argv[1] == '--child':
        sys.exit(child(*sys.argv[2:]))
    total = {}
    for p in sys.argv[1:]:
        out = f'/tmp/cov.{p}'
        open(out, 'wb').write(bytes(len(FILES) * 4096))
        e = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                 MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
                 PYTHONHASHSEED='0')
        r = subprocess.run(['/opt/venv/bin/python', '-B', __file__, '--child',
                            p, out], env=e, capture_output=True, text=True)
        d = open(out, 'rb').read()
        os.remove(out)
        print('==', p, 'rc', r.returncode, r.stderr[-300:])
        for i, f in enumerate(FILES):
            hit = {n for n in range(4096) if d[i * 4096 + n]}
            total.setdefault(f, set()).update(hit)
            want = body_lines(f)
            if want - hit:
                print(f'  {f}: {len(want & hit)}/{len(want)} missing',
                      sorted(want - hit))
    print('== all')
    for f in FILES:
        miss = sorted(body_lines(f) - total.get(f, set()))
        if miss:
            print(' ', f, miss)
