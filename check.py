#!/usr/bin/env python3
"""check.py Cxx : decide one property on /repo's current tree (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib

def main():
    pid = sys.argv[1]
    os.makedirs(vlib.WORK, exist_ok=True)
    ctx = vlib.Ctx(pid)
    try:
        importlib.import_module(pid.lower()).run(ctx)
        return ctx.finish()
    except vlib.CheckError as e:
        if ctx.violations:          # already decided by an earlier, confirmed rejection
            return ctx.finish()
        print("CHECK-ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return ctx.finish() if ctx.violations else 2

sys.exit(main())
