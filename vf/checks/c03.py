"""C03: see spec/Lts.tla (contract), spec/LtsImpl.tla (design), spec/LtsTrace.tla (judgement of recorded runs)."""
from .. import lts, targets as T
from ..core import HARN, REPO

TECHNIQUE = "TLA+ contract of local time stepping and TLA+ model of the scheduler checked with TLC; traces of the real solver under a controlled scheduler validated by TLC against the contract"
NOTE = "Model: exhaustive for small configurations. Code: the unchanged solver (only kernels, sources and initial values are stand-ins) runs under a seeded scheduler which decides every interleaving and message delay; TLC judges every recorded event against the contract."
QUICK = [("TRIA3", 1, 0, 0, 0, 56), ("TRIA3", 1, 0, 0, 2, 24)]
THOROUGH = [("TRIA3", 1, 0, 0, 0, 480), ("TRIA3", 1, 0, 0, 2, 320), ("TRIA3", 1, 0, 1, 0, 240)]


def run(ctx):
    ctx.model_check("MC_Share", "MC_Share_t.cfg" if ctx.thorough else "MC_Share_q.cfg")
    src = REPO + "/src"
    exe = ctx.build("share", [HARN + "/share.cpp", src + "/parallel/Shared.cpp", src + "/parallel/LoadBalancing.cpp", src + "/parallel/global.cpp",
                              (T.EASY[0], T.EASY[1])], lts.flags("TRIA3", 1, 0, 0) + ["-I" + HARN])
    out = ctx.drive([exe, str(ctx.seed), "0", "8000" if ctx.thorough else "800"], what="Shared/LoadBalancing driver")
    if out is not None:
        ctx.judge("ShareRec", out.splitlines())
    lts.check(ctx, "C03", THOROUGH if ctx.thorough else QUICK)
