#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property against /repo's working tree."""
import importlib, os, sys, traceback
if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fv
def main():
    pid = sys.argv[1]
    try:
        rc = importlib.import_module("props." + pid.lower()).run(pid)
    except fv.ToolError as e:
        print("ERROR (no verdict): %s" % e); rc = 3
    except Exception:
        traceback.print_exc(); rc = 3
    finally:
        fv.cleanup()
    sys.exit(rc)
main()
