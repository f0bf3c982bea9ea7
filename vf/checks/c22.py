"""C22: sub-grids."""
import os
from concurrent.futures import ThreadPoolExecutor
from .. import lts
from .. import targets as T
from ..core import HARN, REPO

TECHNIQUE = "TLA+ model of the regular sub-grids of all element types (MC_SubGrid.tla over SubGrid.tla: tiling, and arrival at the same place of an adjacent element over any pair of faces in any orientation, for all sub-cells); the grids generated by EDGEpre, and as loaded by the solver, decided by TLC"
NOTE = "Degrees 0 to 3 (4 and 5 in the thorough tier) of all five element types in exact arithmetic; the solver's view for orders 2 and 3 (4)."
CXX = {"line": "LINE", "tria": "TRIA3", "quad": "QUAD4R", "tet": "TET4", "hex": "HEX8R"}


def run(ctx):
    ctx.model_check("MC_SubGrid", "MC_SubGrid_t.cfg" if ctx.thorough else "MC_SubGrid_q.cfg")
    env = dict(os.environ, PYTHONPATH="/opt/vp/py/sympy-1.4:" + REPO + "/tools/edge_pre", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    degs = [0, 1, 2, 3] + ([4, 5] if ctx.thorough else [])
    d = os.path.join(ctx.work, "raw")
    os.makedirs(d, exist_ok=True)

    def gen(a):
        deg, ty = a
        # mappings are derived symbolically: expensive for high degrees
        ints = deg <= (2 if ty in ("tet", "hex") and not ctx.thorough else 3 if ty in ("tet", "hex") else 4)
        return ctx.drive(["/usr/bin/python3", HARN + "/subgrid.py", ty, str(deg), str(int(ints)), d + "/" + ty + str(deg) + ".h"], what="EDGEpre " + ty + " " + str(deg), env=env, timeout=700)

    easy = ctx.compile(T.EASY[0], ["-std=c++11", "-O1", "-w"] + T.EASY[1])

    def load(a):
        deg, ty = a
        fl = [f for f in lts.flags(CXX[ty], 1, 0, 0, order=deg + 1) if not f.startswith("-I" + lts.L)] + ["-I" + HARN, "-DEL=" + CXX[ty], "-DORD=" + str(deg + 1), '-DTYNAME="' + ty + '"', '-DRAW="' + d + "/" + ty + str(deg) + '.h"'] + (["-DISLINE"] if ty == "line" else []) + ["-DELPP_THREAD_SAFE"]
        exe = ctx.build("subgrid_" + ty + str(deg), [HARN + "/subgrid.cpp"], fl, [easy, "-lpthread"])
        return ctx.drive([exe], what="loading " + ty + " " + str(deg))

    # large ones first
    jobs = [(x, t) for x in reversed(degs) for t in ("hex", "tet", "quad", "tria", "line")]
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(gen, jobs))
        if None in recs:
            return
        l = [j for j in jobs if j[0] in ([1, 2, 3] if ctx.thorough else [1, 2])]
        more = list(ex.map(load, l))
    if None in more:
        return
    out = [r for x in recs + more for r in x.splitlines()]
    out.sort(key=len)
    ctx.judge("SubGridRec", [r for i in range(8) for r in out[i::8]])
    ctx.extra["grids"] = len(out)
