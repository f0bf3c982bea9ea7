"""C11: annotations in HDF5 files."""
import os
from .. import targets as T
from ..core import HARN

TECHNIQUE = "TLA+ model of a file with groups and arrays (Store.tla), model checked; recorded call sequences of the real Hdf5 class decided by TLC"
NOTE = "Sequences of create/group/set/get/size/exists/close/re-open on two files with arrays of all supported types, sizes 0 to 3000 and values at the limits of the types (bit patterns are compared); the HDF5 library is trusted."


def run(ctx):
    ctx.model_check("MC_Store", "MC_Store_t.cfg" if ctx.thorough else "MC_Store_q.cfg")
    V = T.V + "/src"
    exe = ctx.build("hdf5", [HARN + "/hdf5.cpp", T.EASY, V + "/io/Hdf5.cpp"], T.VFLAGS, T.VLINK)
    d = os.path.join(ctx.work, "h5")
    os.makedirs(d)
    n = 6000 if ctx.thorough else 400
    out = ctx.drive([exe, d, str(ctx.seed), "0", str(n)], env=dict(OMP_NUM_THREADS=3), what="Hdf5 driver")
    if out is not None:
        recs = out.splitlines()
        ctx.judge("StoreRec", recs)
        ctx.extra["sequences"] = len(recs)
