#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bbv import checks, engine
from bbv.run import Run


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run = Run(pid, tier, seed)
    engine.bubbler()
    rule = checks.PROPS[pid](run)
    sys.exit(run.finish(rule))


main()
