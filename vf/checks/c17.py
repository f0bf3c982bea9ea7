"""C17: linear slip weakening."""
from .. import lts
from ..core import HARN

TECHNIQUE = "TLA+ model of a fault point with slip history (Friction.tla; TLC derives bounded traction, dissipation, monotone slip and weakening for every history); recorded histories of the real friction law decided by TLC"
NOTE = "Two and three dimensions, double and single precision, 1 to 8 fused runs, both orientations, both entry points. Trial tractions below, at and above the strength, along and against the initial stress; sliding or sticking is decided exactly for representable states."


def run(ctx):
    ctx.model_check("MC_Friction", "MC_Friction_t.cfg" if ctx.thorough else "MC_Friction_q.cfg")
    fl = [f for f in lts.flags("TRIA3", 1, 0, 0, order=1) if not f.startswith("-I" + lts.L)] + ["-I" + HARN]
    exe = ctx.build("friction", [HARN + "/friction.cpp"], fl, [])
    out = ctx.drive([exe, str(ctx.seed), str(600 if ctx.thorough else 60)], what="friction law driver")
    if out is None:
        return
    recs = out.splitlines()
    rnd = []
    for i in range(8):
        rnd += recs[i::8]
    ctx.judge("FrictionRec", rnd)
    ctx.extra["perturbations"] = len(recs)
    ctx.assumptions += ["static coefficient not below the dynamic one"]
