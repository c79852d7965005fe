#!/usr/bin/env python3-vt
"""run.py <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [--replay FILE] [-v]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from sx import runner

    if a.replay:
        sys.exit(runner.replay(a.prop, a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(runner.run_property(a.prop, a.tier, seed, a.only, a.workers, a.v, a.budget))
