#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property of /repo's source."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.check import run
from sa.rules import RULES

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop == "all":
        bad = 0
        for p in sorted(RULES):
            bad |= run(p, RULES[p], tier)
        sys.exit(bad)
    sys.exit(run(prop, RULES[prop], tier))
