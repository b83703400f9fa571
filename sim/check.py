#!/usr/bin/env python3
"""check.py PROPERTY | --replay FILE      environment: VERIF_SEED, VERIF_TIER"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, props

if __name__ == "__main__":
    table = props.table()
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(core.replay(table, sys.argv[2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(core.run_check(table[sys.argv[1]], tier, seed))
