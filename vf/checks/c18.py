"""C18: shallow water solver."""
from .. import lts, targets as T
from ..core import HARN, REPO

TECHNIQUE = "TLA+ contract of face and cell updates (Swe.tla), from which TLC derives mass conservation, lakes at rest and dry cells for every admissible splitting of the jumps; recorded steps and runs of the real solver decided by TLC"
NOTE = "Lines, rectangles and triangles in closed, open and periodic domains with arbitrary numbering and orientation, 1, 4 and 8 fused runs. States of single steps are exactly representable, which makes the expected jumps rational; comparisons allow for rounding (1E-5 for mass, 1E-3 for momentum and speeds)."


def run(ctx):
    ctx.model_check("MC_Swe", "MC_Swe_t.cfg" if ctx.thorough else "MC_Swe_q.cfg")
    fl = [f for f in lts.flags("TRIA3", 1, 0, 0, order=1, eq="SWE") if not f.startswith("-I" + lts.L)] + ["-I" + HARN]
    exe = ctx.build("swe", [HARN + "/swe.cpp", T.EASY], fl, ["-lpthread"])
    k = 15 if ctx.thorough else 1
    out = ctx.drive([exe, str(ctx.seed), str(60 * k), str(60 * k)], what="shallow water driver")
    if out is None:
        return
    recs = out.splitlines()
    rnd = []
    for i in range(8):
        rnd += recs[i::8]
    ctx.judge("SweRec", rnd)
    ctx.extra["steps"] = sum(1 for r in recs if '"k":"step"' in r)
    ctx.extra["runs"] = sum(1 for r in recs if '"k":"run"' in r)
    ctx.assumptions += ["cells do not run dry (the solver has no wetting and drying)"]
