"""C06: communication structure."""
from .. import targets as T
from ..core import HARN
import json
TECHNIQUE = "TLA+ specification of the channels (Comm.tla) model checked for all small partitioned graphs; records of the real Communication class decided by TLC against it"
NOTE = "Model: mirror symmetry and completeness for all graphs with up to 4 elements. Code: channels, send/receive faces, their order on both sides and the inner/send counts of seeded random adjacencies (grids and random graphs), partitionings and groupings are decided by TLC."


def run(ctx):
    ctx.model_check("MC_Comm", "MC_Comm_t.cfg" if ctx.thorough else "MC_Comm_q.cfg")
    exe = ctx.build("comm", [HARN + "/comm.cpp", T.EASY] + T.edge_v_sources(), T.VFLAGS, T.VLINK)
    out = ctx.drive([exe, str(ctx.seed), str(60000 if ctx.thorough else 4000)], env=dict(OMP_NUM_THREADS=2), what="communication driver")
    if out is None:
        return
    recs = out.splitlines()
    ctx.sample(json.loads(recs[0]))
    ctx.judge("CommRec", recs, only=None)
    ctx.assumptions += ["two elements share at most one face, elements are sorted as the partitioner sorts them, every partition has a neighbour",
                        "the communication structure of the preprocessor's main program is the one of the class (main.cpp only copies it to the support files)"]
