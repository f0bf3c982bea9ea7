"""C19: troubled cell detection."""
from .. import lts
from ..core import HARN

TECHNIQUE = "TLA+ definition of the relaxed maximum principle (Dmp.tla; soundness, tightness and independence of the neighbours' order model checked for all small patterns); recorded verdicts and extrema of the real detection decided by TLC"
NOTE = "Face and Voronoi neighbourhoods of lines, quads, triangles, tets and hexes, 1 to 16 fused runs (some of them holding NaN or infinity), double and single precision; candidates one unit (1E-5) inside and two units outside of the relaxed range. NaN candidates are outside of the statement."


def run(ctx):
    ctx.model_check("MC_Dmp", "MC_Dmp_t.cfg" if ctx.thorough else "MC_Dmp_q.cfg")
    fl = [f for f in lts.flags("TRIA3", 1, 0, 0, order=2) if not f.startswith("-I" + lts.L)] + ["-I" + HARN]
    exe = ctx.build("dmp", [HARN + "/dmp.cpp"], fl, [])
    out = ctx.drive([exe, str(ctx.seed), str(2500 if ctx.thorough else 250)], what="detection driver")
    if out is None:
        return
    recs = out.splitlines()
    rnd = []
    for i in range(8):
        rnd += recs[i::8]
    ctx.judge("DmpRec", rnd)
    ctx.extra["verdicts"] = sum(1 for r in recs if '"k":"dmp"' in r)
    ctx.extra["rejections"] = sum(1 for r in recs if '"adm":0' in r)
    ctx.assumptions += ["the candidate's minimum does not exceed its maximum"]
