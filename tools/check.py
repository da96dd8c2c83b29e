#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's working tree."""
import importlib
import os
import shutil
import sys
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "tools"), os.path.join(VERIF, "checks")]
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    old = os.path.join(vlib.EVID, pid + ".json")
    if os.path.exists(old):
        os.unlink(old)
    c = vlib.Check(pid)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(c)
        return c.finish()
    except vlib.ToolError as e:
        print("check error: %s" % e)
        return 2
    except SystemExit as e:
        print("check error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
