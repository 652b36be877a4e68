#!/usr/bin/env python3
"""check.py <property id>: decides one property for /repo's current tree (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core, checks

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = core.Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        rule = getattr(checks, prop)(ctx)
        return ctx.finish(rule)
    except core.CheckError as e:
        print(f"ERROR: {e}", file=sys.stderr)
        if ctx.violations:      # what was confirmed stays reported
            return ctx.finish("incomplete: " + str(e))
        return 2

sys.exit(main())
