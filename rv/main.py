import importlib
import os
import sys


def main():
    pid = sys.argv[1]
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(os.path.join(here, 'checks'))):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            mod = importlib.import_module('rv.checks.' + f[:-3])
            break
    else:
        print('no check for', pid)
        return 3
    from rv import core
    return core.main(mod, sys.argv[2:])


if __name__ == '__main__':
    sys.stdout.reconfigure(errors='backslashreplace')
    sys.exit(main())
