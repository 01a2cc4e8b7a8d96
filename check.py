import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(5000)
import core  # noqa

if __name__ == '__main__':
    if sys.argv[1] == '--self-test':
        import selftest
        core.import_chumpy()
        sys.exit(selftest.main())
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    sys.exit(core.main(prop, mod, sys.argv[2:]))
