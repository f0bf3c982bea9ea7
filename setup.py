#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses. The checks build what they need themselves."""
import concurrent.futures as cf, glob, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
for t in ("g++", "java", "python3"):
    if subprocess.call(["which", t], stdout=subprocess.DEVNULL) != 0:
        sys.exit("missing tool " + t)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def sany(f):
    r = subprocess.run(["java", "-cp", CP, "-DTLA-Library=" + os.path.join(here, "spec"), "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=os.path.join(here, "spec"))
    return f, r.returncode == 0 and "Semantic errors" not in r.stdout, r.stdout
with cf.ThreadPoolExecutor(8) as ex:
    bad = [(f, o) for f, ok, o in ex.map(sany, sorted(glob.glob(os.path.join(here, "spec", "*.tla")))) if not ok]
for f, o in bad:
    print(f, o[-2000:])
sys.exit(1 if bad else 0)
