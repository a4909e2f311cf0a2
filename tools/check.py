#!/usr/bin/env python3
"""check.py <property>: decides one property.  Exit 0 held, 1 violation, 2 the check itself failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import tlc
from lib import Ctx


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    import registry
    mod, fn, level, technique = registry.CHECKS[pid]
    c = Ctx(pid, level, technique)
    try:
        c.build()
        getattr(importlib.import_module(mod), fn)(c)
        return c.finish()
    except tlc.ToolError as e:
        print("check failed: %s" % e)
    except Exception:
        traceback.print_exc()
    # what was judged before stands
    if c.viol:
        return c.finish() or 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
