"""Is a seed one exactly repeatable execution?

python -m dst selftest [<id>...]: runs the same worlds twice, with other numbers
of workers (hence other neighbours, orders and loads) and compares everything
that was observed: cases with their schedules and faults, counters, samples,
violations. The digest is also the same in another process, with any
PYTHONHASHSEED.
"""
import hashlib
import importlib

from . import driver, execute

ALL = ('C01', 'C02', 'H01', 'D01', 'F01', 'F02', 'F03', 'F04', 'B01', 'B02', 'K01',
       'P01', 'R01')


def digest(a):
    return hashlib.blake2b(repr(sorted(a.items())).encode(), digest_size=8).hexdigest()


def main(argv):
    execute.setup()
    bad = 0
    for prop in argv or ALL:
        mod = importlib.import_module(f'dst.checks.{prop.lower()}')
        driver.prepare(mod, 'quick')
        got = []
        for nproc, worlds in ((8, 24), (3, 24)):
            keep = {}
            driver.explore(mod, 'quick', 'selftest', worlds, 600, False, nproc,
                           keep=keep)
            got.append(keep)
        a, b = got
        common = sorted(set(a) & set(b))
        diff = [i for i in common if a[i] != b[i]]
        print(f'{prop}: {len(common)} worlds executed twice, {len(diff)} differ '
              f'{diff[:5]}; digest {digest(a)}', flush=True)
        if diff:
            i = diff[0]
            k = next(k for k in range(len(a[i])) if a[i][k:k + 1] != b[i][k:k + 1])
            print('   ', a[i][max(0, k - 200):k + 200])
            print('   ', b[i][max(0, k - 200):k + 200])
        bad += len(diff) + (len(common) < 24)
    return 1 if bad else 0
