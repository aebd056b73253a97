#!/usr/bin/env python3
"""run.py check <ID> | replay <file> | setup"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt import engine  # noqa: E402


def main(a):
    if len(a) >= 2 and a[0] == 'check':
        return engine.run_check(a[1])
    if len(a) >= 2 and a[0] == 'replay':
        return engine.replay(a[1])
    if a and a[0] == 'setup':
        from vt import setup
        return setup.main()
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
