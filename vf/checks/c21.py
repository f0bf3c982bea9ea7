"""C21: extruded surfaces."""
import os
from .. import targets as T
from ..core import HARN, REPO

TECHNIQUE = "TLA+ model of the extrusion with rings of decreasing cell size (Extrude in MC_Extrude.tla over Surface.tla; TLC checks each stage's boundary and that the result is a closed, oriented sphere for all grid sizes, levels and depths within bounds); surfaces written by the real class and the real program decided by TLC"
NOTE = "Grids with room for the refinement rings, up to 2 levels (3 in the model), arbitrary order of the points, graded and projected (large) coordinates, arbitrary heights; the real class with default and full precision of the streams, the real program with its own."


def run(ctx):
    ctx.model_check("MC_Extrude", "MC_Extrude_t.cfg" if ctx.thorough else "MC_Extrude_q.cfg")
    C = REPO + "/tools/edge_cut"
    fl = ["-std=c++11", "-O1", "-w", "-DELPP_THREAD_SAFE", "-DPP_USE_EASYLOGGING", '-DPP_EDGE_VERSION="offline"', "-I" + HARN, "-I" + C, "-I" + C + "/src", "-I" + HARN + "/stubs"]
    src = T.walk(C + "/src", skip=["main.cpp"])
    prog = ctx.build("edge_cut", [C + "/src/main.cpp"] + src + [T.EASY], fl, ["-lpugixml", "-lpthread"])
    exe = ctx.build("extrude", [HARN + "/extrude.cpp"] + src + [T.EASY], fl, ["-lpugixml", "-lpthread"])
    d = os.path.join(ctx.work, "cut")
    os.makedirs(d, exist_ok=True)
    k = 8 if ctx.thorough else 1
    out = ctx.drive([exe, str(ctx.seed), str(120 * k), str(24 * k), prog, d], what="extrusion driver")
    if out is None:
        return
    recs = out.splitlines()
    ctx.judge("ExtrudeRec", [r for i in range(8) for r in recs[i::8]])
    ctx.extra["surfaces"] = len(recs)
    ctx.assumptions += ["2 (2^(levels+1) - 2) cells or more in each direction, a multiple of 2^levels", "points of a row have identical coordinates"]
