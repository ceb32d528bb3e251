#!/usr/bin/env python3
"""check.py <property id>: run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)."""
import sys, os, importlib
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
import vf
if __name__ == "__main__":
    prop = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    vf.main(importlib.import_module(prop.lower()).run, prop)
