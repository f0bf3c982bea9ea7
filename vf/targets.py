"""Source lists and flags of the pieces of /repo which the drivers are built from."""
import os
from .core import REPO, HARN

EASY = ("/usr/include/easylogging++.cc", ["-DELPP_NO_DEFAULT_LOG_FILE", "-DELPP_THREAD_SAFE", "-x", "c++"])
V = REPO + "/tools/edge_v"
VFLAGS = ["-std=c++11", "-O1", "-g0", "-w", "-fopenmp", "-DPP_USE_OMP", "-DPP_USE_EASYLOGGING", "-DEIGEN_MAX_STATIC_ALIGN_BYTES=0",
          '-DPP_EDGE_VERSION="offline"', "-DPP_USE_METIS", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial",
          "-I" + HARN, "-I" + V, "-I" + V + "/src"]
VLINK = ["-lpugixml", "-lgmsh", "-lmetis", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_hl.so",
         "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so", "-lpthread", "-ldl"]


def walk(root, pats=(".cpp",), skip=()):
    res = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if not f.endswith(tuple(pats)) or f.endswith("test.cpp") or f.endswith("tests.cpp"):
                continue
            if any(rel == s or rel.startswith(s) for s in skip):
                continue
            res.append(p)
    return res


def edge_v_sources():
    """All of edge_v's library (what the offline build compiles)."""
    skip = ["io/ExprTk.cpp", "mesh/Refinement.cpp", "models/GridExpression.cpp", "models/seismic/Expression.cpp", "models/seismic/Rule.cpp",
            "io/Ucvm.cpp", "models/seismic/Ucvm.cpp", "main.cpp", "io/Config.cpp"]
    return walk(V + "/src", skip=skip)
