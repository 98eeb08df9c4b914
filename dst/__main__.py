"""python -m dst check <id> | replay <file> | selftest [<id>]"""
import sys

from . import boot


def main():
    boot.ensure_env()
    argv = sys.argv[1:]
    try:
        if argv[:1] == ['check']:
            import importlib
            from . import driver
            mod = importlib.import_module(f'dst.checks.{argv[1].lower()}')
            return driver.main(mod, argv[2:])
        if argv[:1] == ['setup']:
            from . import execute
            execute.setup()
            print('ready')
            return 0
        if argv[:1] == ['replay']:
            from . import driver
            return driver.replay_main(argv[1])
        if argv[:1] == ['selftest']:
            from . import selftest
            return selftest.main(argv[1:])
    except Exception:                                   # noqa: B902
        import traceback
        traceback.print_exc()
        print('HARNESS ERROR', file=sys.stderr)
        return 2
    print(__doc__, file=sys.stderr)
    return 2


sys.exit(main())
