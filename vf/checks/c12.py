"""C12: sparse entities."""
from .. import lts, targets as T
from ..core import HARN, REPO

TECHNIQUE = "traversal-free TLA+ definitions of all sparse numberings and links (Sparse.tla), one-pass algorithm model checked against them; records of the real SparseEntities, EntityLayout and ibnd::Init functions decided by TLC"
NOTE = "Model: the one-pass algorithm equals the definitions for all types and adjacencies of up to N entities. Code: random types (three bits at random positions of the 64-bit word), adjacencies with and without undefined neighbours, fixed and dynamic, including empty ones; outputs are guarded against writes outside."


def run(ctx):
    ctx.model_check("MC_Sparse", "MC_Sparse_t.cfg" if ctx.thorough else "MC_Sparse_q.cfg")
    src = REPO + "/src"
    exe = ctx.build("sparse", [HARN + "/sparse.cpp", src + "/data/EntityLayout.cpp", src + "/parallel/global.cpp", (T.EASY[0], T.EASY[1])],
                    lts.flags("TRIA3", 1, 0, 0) + ["-I" + HARN])
    out = ctx.drive([exe, str(ctx.seed), "0", "60000" if ctx.thorough else "4000"], what="SparseEntities driver")
    if out is not None:
        recs = out.splitlines()
        ctx.judge("SparseRec", recs)
        ctx.sample(recs[8][:400])
        ctx.extra["calls"] = len(recs)
