#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.checks import main


def arg(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


tier = arg("--tier", os.environ.get("VERIF_TIER") or "quick")
seed = int(arg("--seed", os.environ.get("VERIF_SEED") or "1"))
sys.exit(main(sys.argv[1], tier, seed))
