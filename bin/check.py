#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: exit 0 held, 1 violated (VIOLATION line), 2 tool error."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
MODULES = {"P01": "wasp", "P02": "wasp", "P03": "wasp", "P04": "wasp", "P05": "wasp", "P06": "merge", "P07": "merge", "P08": "merge"}
for _p in ("P09", "P10", "P11", "P12", "P13", "P14", "P15", "P22"):
    MODULES[_p] = "corecheck"
MODULES["P16"] = "nesting"
MODULES["P17"] = "opcodes"
MODULES["P18"] = "stacklib"
MODULES["P19"] = "purity"
MODULES["P20"] = "pipeline"
MODULES["P21"] = "interface"
MODULES["P23"] = "cli"
MODULES["P24"] = "aspect"
MODULES["P25"] = "reports"
if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(importlib.import_module(MODULES[prop]).main(prop, tier))
    except common.ToolError as e:
        print("TOOL-ERROR %s: %s" % (prop, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
