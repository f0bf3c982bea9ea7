"""C13: time relations of the faces."""
import concurrent.futures as cf
import json, os
from .. import lts, targets as T
from ..core import HARN, REPO

TECHNIQUE = "TLA+ definition of a partition's local view (Flags.tla) model checked against the global mesh; records of the real EdgeV class, directly and through written mesh and support files of all partitions, decided by TLC"
NOTE = "Model: local derivation equals the global relation for all graphs with N elements, partitionings and groupings. Code: random layouts/adjacencies/channels, and generated triangle/quad/tet/hex meshes partitioned, written to files and read back by the solver's class for every rank."


def run(ctx):
    ctx.model_check("MC_Flags", "MC_Flags_t.cfg" if ctx.thorough else "MC_Flags_q.cfg")
    src = REPO + "/src"
    fl = [f for f in lts.flags("TRIA3", 1, 0, 0) if not f.startswith("-I" + lts.L)] + ["-I" + HARN + "/evinc"] + T.VFLAGS[-2:] + ["-I" + HARN, "-DPP_USE_METIS", "-isystem", "/usr/include/hdf5/serial"]
    exe = ctx.build("flags", [HARN + "/flags.cpp", src + "/mesh/EdgeV.cpp", src + "/data/EntityLayout.cpp", src + "/parallel/global.cpp", T.EASY] + T.edge_v_sources(), fl, T.VLINK)
    k = 12 if ctx.thorough else 1
    jobs = []
    for ty in range(4):
        d = os.path.join(ctx.work, "flags%d" % ty)
        os.makedirs(d)
        jobs.append([exe, d, str(ctx.seed), str(250 * k), str(50 * k), str(ty)])
    with cf.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda j: ctx.drive(j, env=dict(OMP_NUM_THREADS=2), timeout=600, what="EdgeV driver, element type " + j[5]), jobs))
    if any(o is None for o in outs):
        return
    recs = [l for o in outs for l in o.splitlines()]
    rnd = []
    for i in range(8):
        rnd += recs[i::8]
    ctx.judge("FlagsRec", rnd)
    ctx.sample(json.loads(recs[0]))
    ctx.extra["meshes"] = sum(1 for r in recs if '"k":"pipe"' in r)
    ctx.assumptions += ["partition meshes are written by the driver in the order of the global mesh (the gmsh plugin which writes them is not installed); support files are written with the real Hdf5 and Communication classes as edge_v's main program does",
                        "two elements share at most one face, every partition has a neighbour"]
