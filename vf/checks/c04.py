"""C04: see spec/Lts.tla (contract), spec/LtsImpl.tla (design), spec/LtsTrace.tla (judgement of recorded runs)."""
from .. import lts

TECHNIQUE = "TLA+ contract of local time stepping and TLA+ model of the scheduler checked with TLC; traces of the real solver under a controlled scheduler validated by TLC against the contract"
NOTE = "Model: exhaustive for small configurations. Code: the unchanged solver (only kernels, sources and initial values are stand-ins) runs under a seeded scheduler which decides every interleaving and message delay; TLC judges every recorded event against the contract."
QUICK = [("TRIA3", 2, 0, 1, 0, 72), ("TRIA3", 2, 0, 1, 2, 8), ("TET4", 1, 2, 1, 0, 24)]
THOROUGH = [("TRIA3", 2, 0, 1, 0, 640), ("TRIA3", 2, 0, 1, 2, 200), ("TET4", 1, 2, 1, 0, 400), ("HEX8R", 2, 0, 1, 0, 120)]


def run(ctx):
    lts.check(ctx, "C04", THOROUGH if ctx.thorough else QUICK)
