#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree.  See DESIGN.md."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib  # noqa: E402
import checks  # noqa: E402


def main():
    pid = sys.argv[1]
    c = vlib.Check(pid)
    try:
        checks.CHECKS[pid](c)
        rc = c.finish(assumptions=checks.ASSUMPTIONS.get(pid, ()))
    except vlib.MachineryError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.cleanup()
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
