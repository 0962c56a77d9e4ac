#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: one property's check.  Exit 0 held, 1 violation, 2 tool error."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, registry

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        mod, fn = registry.CHECKS[prop][:2]
        return getattr(importlib.import_module(mod), fn)(prop, tier)
    except lib.ToolError as e:
        lib.log("TOOL ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

sys.exit(main())
