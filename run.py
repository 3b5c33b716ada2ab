#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]   |   run.py replay FILE"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib, plans

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(vlib.replay(sys.argv[2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.exit(vlib.main(sys.argv[1], tier, plans.PLANS[sys.argv[1]]))
