"""C14: storage of the memory layer."""
from .. import lts, targets as T
from ..core import HARN, REPO

TECHNIQUE = "TLA+ definition of the storage layouts (Memory.tla), whose disjointness, ordering and buffer-copy theorems TLC checks on all small instances; storage handed out by the real code for generated requests decided by TLC"
NOTE = "Requests: pools with alignments 8 to 4096 and sizes 0 to 300000, flexible storage with up to 4 sparse types, layouts with 5 groups, face data with up to 3 neighbouring regions, message buffers with one and two copies. High-bandwidth and huge-page storage is not available here (the flags are exercised with the default allocator)."


def run(ctx):
    ctx.model_check("MC_Memory", "MC_Memory_t.cfg" if ctx.thorough else "MC_Memory_q.cfg")
    ctx.model_check("MC_MemAdj", "MC_MemAdj_t.cfg" if ctx.thorough else "MC_MemAdj_q.cfg")
    src = REPO + "/src"
    fl = [f for f in lts.flags("TRIA3", 1, 0, 0) if not f.startswith("-I" + lts.L)] + ["-I" + HARN]
    exe = ctx.build("memory", [HARN + "/memory.cpp", src + "/data/Dynamic.cpp", src + "/data/EntityLayout.cpp", src + "/parallel/Distributed.cpp", src + "/parallel/global.cpp", T.EASY], fl, ["-lpthread"])
    n = 4000 if ctx.thorough else 250
    out = ctx.drive([exe, str(ctx.seed), str(n)], what="memory driver")
    if out is None:
        return
    recs = out.splitlines()
    ctx.judge("MemoryRec", recs)
    for k in ("pool", "flex", "layout", "adj", "buf"):
        ctx.extra[k] = sum(1 for r in recs if '"k":"%s"' % k in r)
