#!/usr/bin/env python3-vt
"""check.py PROPERTY [--thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vc import run

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    sys.setrecursionlimit(20000)
    sys.exit(run.check(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
