#!/usr/bin/env python3
"""usage: check.py PID -- runs the static check of one property against /repo's current tree."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common
import load


def main():
    pid = sys.argv[1]
    ctx = common.Ctx(pid)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(ctx)
    except load.LoadError as e:
        print(f"{pid}: cannot analyse: {e}")
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    sys.exit(common.finish(ctx, mod.LEVEL, mod.TECHNIQUE, mod.TRUSTED, mod.ASSUMPTIONS))


main()
