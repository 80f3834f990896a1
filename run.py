#!/usr/bin/env python3
"""run.py <property-id> quick|thorough   -- decide one property on /repo's current tree
   run.py setup                           -- warm the build"""
import json, os, sys, traceback
import vlib, checks
def main():
    if sys.argv[1] == "setup":
        try:
            vlib.build(); vlib.build('cli')
        except vlib.ToolError as e:
            print(e); return 1
        try: vlib.build('modman')
        except vlib.ToolError as e: print(e)   # only C21, C22 need it
        return 0
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = vlib.Ctx(pid, tier)
    try:
        checks.CHECKS[pid](c)
        return c.finish()
    except vlib.ToolError as e:
        print("TOOL-ERROR", str(e)[-6000:]); return 2
    except Exception:
        traceback.print_exc(); return 2
sys.exit(main())
