#!/usr/bin/env python3
"""python3 run.py C05: runs the check of one property (VERIF_TIER, VERIF_SEED from the environment)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core
if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module("vf.checks." + prop.lower())
    core.main(prop, mod.run, getattr(mod, "LEVEL", "model_checking"))
