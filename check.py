#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed n]: exit 0 held, 1 violated, 2 no verdict."""
import importlib, os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'checks'))
sys.dont_write_bytecode = True
import lib
def main():
    pid = sys.argv[1]
    c = lib.Check(pid, sys.argv[2:])
    try:
        importlib.import_module(pid).run(c)
        return c.finish()
    except lib.Broken as e:
        if c.violations:            # another part of the check has decided
            print('part of the check gave no verdict: %s' % str(e)[:500])
            return c.finish()
        print('NO VERDICT for %s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        import shutil
        shutil.rmtree(c.work, ignore_errors=True)
sys.exit(main())
