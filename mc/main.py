import importlib
import os
import pkgutil
import sys

from . import env  # noqa
from . import engine


def modules():
    import checks
    out = {}
    for m in pkgutil.iter_modules(checks.__path__):
        if m.name.startswith('c') and m.name[1:3].isdigit():
            out[m.name.split('_')[0].upper()] = 'checks.' + m.name
    return out


def main():
    if len(sys.argv) < 2:
        print('usage: run.sh <property> ...')
        return 2
    prop = sys.argv[1]
    mods = modules()
    if prop == '--self-test':
        from . import selftest
        return selftest.main()
    if prop not in mods:
        print('no check for', prop)
        return 2
    mod = importlib.import_module(mods[prop])
    return engine.main(mod, sys.argv[2:])


if __name__ == '__main__':
    sys.exit(main())
