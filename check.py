#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property, see DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, props

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        c = vlib.Check("setup", "quick", 1)
        c.build()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = vlib.Check(prop, tier, seed)
    try:
        props.PROPS[prop](c)
    except vlib.ToolError as e:
        print("TOOL ERROR:", e)
        sys.exit(2)
    sys.exit(c.finish())

main()
