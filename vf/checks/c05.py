"""C05: time groups. Design model TimeGroups.tla (chaotic normalisation), real code judged by TimeGroupsRec.tla."""
from .. import targets as T
from ..core import HARN
import json

TECHNIQUE = "TLA+ model of chaotic group normalisation checked with TLC; records of the real grouping/CFL code validated by TLC against it"
NOTE = "Design: exhaustive for all small graphs. Code: every recorded result on seeded random and adversarial graphs is decided by TLC against the exact relation (intervals, CFL bound, single jumps, maximality, counts, speed-up); trusts the driver that records inputs and outputs."


def run(ctx):
    exe = ctx.build("groups", [HARN + "/groups.cpp", T.EASY] + T.edge_v_sources(), T.VFLAGS, T.VLINK)
    ctx.model_check("TimeGroups", "MC_TimeGroups.cfg" if ctx.thorough else "MC_TimeGroups3.cfg")
    n = (9000, 4000) if ctx.thorough else (1500, 500)
    out = ctx.drive([exe, str(ctx.seed), str(n[0]), str(n[1])], env=dict(OMP_NUM_THREADS=3), what="groups/cfl driver")
    if out is None:
        return
    recs = out.splitlines()
    ctx.extra["distinct_results"] = len(set(recs))
    for i in (1, n[0] + 1):
        ctx.sample(json.loads(recs[i]))
    ctx.judge("TimeGroupsRec", recs)
    ctx.assumptions += ["time steps, rates and the relative fundamental time step are sampled on a dyadic grid, on which the code's floating-point arithmetic is exact",
                        "the confluence of the normalisation is checked for all graphs with up to %d elements and 4 groups" % (4 if ctx.thorough else 3)]
