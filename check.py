#!/usr/bin/env python3
"""python3 check.py <property id>: exit 0 when the property held, 1 with a VIOLATION line when it did not."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import vlib


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    chk = vlib.Check(pid)
    try:
        mod.run(chk)
    except vlib.MachineryError as e:
        if not chk.violations:
            print("ERROR: the machinery of %s failed: %s" % (pid, e))
            return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
