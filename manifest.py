#!/usr/bin/env python3
"""Source of MANIFEST.json (python3 manifest.py rewrites it): one entry per property with a check module."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import properties
checks, na = [], []
for p in properties.P:
    pid = p["id"]
    f = os.path.join(here, "vf", "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=pid, reason=properties.NA.get(pid, "check under construction, not claimed yet")))
        continue
    m = importlib.import_module("vf.checks." + pid.lower())
    checks.append(dict(property=pid, quick_cmd="python3 run.py " + pid, thorough_cmd="VERIF_TIER=thorough python3 run.py " + pid,
                       technique=m.TECHNIQUE, level=getattr(m, "LEVEL", "model_checking"), level_note=m.NOTE))
man = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
if os.path.exists(os.path.join(here, "hooks.json")):
    man["hooks"] = json.load(open(os.path.join(here, "hooks.json")))
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
