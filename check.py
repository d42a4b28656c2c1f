#!/usr/bin/env python3
"""check.py <property>: decides one property (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
import vf

def main():
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    ck = vf.Check(prop)
    try:
        mod.run(ck)
        return ck.finish()
    except vf.ToolError as e:
        vf.log(f"TOOL-ERROR property={prop} {e}")
        if ck.violations:      # something was already rejected: that stands
            return ck.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return ck.finish() if ck.violations else 2

sys.exit(main())
