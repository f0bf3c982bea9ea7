"""C25: kinematic point sources."""
import os
from concurrent.futures import ThreadPoolExecutor
from .. import lts
from .. import targets as T
from ..core import HARN

TECHNIQUE = "TLA+ model of point sources (Points.tla: integral of the piecewise linear slip rate, the solver's step, ownership among ranks; MC_Points checks the injected moment over all step sequences of all small sources); recorded runs of the real sources decided by TLC"
NOTE = "Triangles, quads, tets and hexes, orders 1 and 2, one to four fused runs, up to three (sequentially simulated) ranks, points inside, on faces, and outside of the mesh. Sources hold at least one sample; the HDF5 library is trusted."
VAR = [("QUAD4R", "quad", 2, "double", 1), ("TRIA3", "tria", 2, "double", 2), ("HEX8R", "hex", 2, "double", 1), ("TET4", "tet", 2, "double", 2), ("QUAD4R", "quad", 1, "float", 4), ("TET4", "tet", 1, "float", 1), ("TRIA3", "tria", 2, "float", 4)]


def run(ctx):
    ctx.model_check("MC_Points", "MC_Points_t.cfg" if ctx.thorough else "MC_Points_q.cfg")
    easy = ctx.compile(T.EASY[0], ["-std=c++11", "-O1", "-w"] + T.EASY[1])

    def one(a):
        el, ty, o, real, ncr = a
        fl = [f for f in lts.flags(el, ncr, 0, 1, order=o, prec=64 if real == "double" else 32) if not f.startswith("-I" + lts.L) or f.endswith("/include")]
        fl += ["-I" + HARN, "-DEL=" + el, '-DTYNAME="' + ty + '"', "-DORD=%d" % o, "-DREAL=" + real, "-DNCR=%d" % ncr, "-DELPP_THREAD_SAFE"]
        name = "points_%s_%d_%s" % (ty, o, real)
        src = [HARN + "/points.cpp"] + [lts.SRC + "/" + s for s in ("parallel/Distributed.cpp", "parallel/global.cpp", "data/Dynamic.cpp", "dg/Basis.cpp", "data/EntityLayout.cpp")]
        exe = ctx.build(name, src, fl, [easy, "-lpthread", "-Wl,--unresolved-symbols=ignore-all"] + [l for l in T.VLINK if "hdf5" in l])
        d = os.path.join(ctx.work, name + ".d")
        os.makedirs(d, exist_ok=True)
        return ctx.drive([exe, d, str(ctx.seed), str(900 if ctx.thorough else 90)], what="sources on " + ty, env=dict(OMP_NUM_THREADS="2"))

    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(one, VAR))
    if None in outs:
        return
    recs = [r for o in outs for r in o.splitlines()]
    recs.sort(key=len)
    ctx.judge("PointsRec", [r for i in range(8) for r in recs[i::8]])
    ctx.extra["runs"] = len(recs)
