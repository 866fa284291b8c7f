#!/usr/bin/env python3
"""check.py ID [--thorough]: decide one property of /repo's current tree statically."""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import importlib
from fw import Check, finish, Broken
from registry import PROPS


def main():
    pid = sys.argv[1]
    if pid == '--selftest':
        import absint, lin, irparse, build_ir  # noqa: the engine is pure Python, nothing to build
        print('ok')
        return 0
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    meta = PROPS[pid]
    t0 = time.time()
    from ctx import Ctx
    from build_ir import BuildError
    ctx = Ctx(tier, drivers=meta.get('drivers', ('driver.cpp',)))
    chk = Check(pid, tier)
    try:
        for impl in meta['impl']:
            m, f = impl.split('.')
            getattr(importlib.import_module(m), f)(ctx, chk)
        return finish(chk, t0, meta)
    except (Broken, BuildError) as e:
        print('%s: analysis broken: %s' % (pid, e))
        return 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('%s: analysis broken: %s' % (pid, e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
