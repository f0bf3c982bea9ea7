"""Mesh checks: one driver of edge_v's Gmsh interface, Mesh, Partition; records judged by MeshRec.tla."""
import concurrent.futures as cf
import json, os
from . import targets as T
from .core import HARN, VERIF


def run(ctx, plan, only, what):
    """plan: dict element type -> (plain, periodic, partitioned) numbers of meshes."""
    exe = ctx.build("mesh", [HARN + "/mesh.cpp", T.EASY] + T.edge_v_sources(), T.VFLAGS, T.VLINK)
    d = os.path.join(ctx.work, "msh")
    os.makedirs(d)
    jobs = []
    for ty, (a, b, c) in sorted(plan.items()):
        jobs.append([exe, d, str(ctx.seed), str(ty), str(a), str(b), str(c)])
    with cf.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda j: ctx.drive(j, env=dict(OMP_NUM_THREADS=2), timeout=500, what="%s driver, element type %s" % (what, j[3])), jobs))
    if any(o is None for o in outs):
        return []
    recs = [l for o in outs for l in o.splitlines()]
    for o in outs[:3]:
        r = json.loads(o.splitlines()[-1])
        ctx.sample({k: r[k] for k in ("k", "ty", "pts", "cells", "per", "elVe", "faEl") if k in r})
    rnd = []      # interleave, such that the chunks take equally long
    for i in range(8):
        rnd += recs[i::8]
    ctx.judge("MeshRec", rnd, only=only)
    ctx.extra["meshes"] = len(recs)
    ctx.extra["elements"] = sum(len(json.loads(r)["cells"]) for r in recs)
    ctx.assumptions += ["meshes have up to 64 elements (a box grid of random extents, spacing, vertex displacements, diagonals, removed elements and random vertex/element/face numbering, or isolated skewed simplices) with small integer coordinates times a power of two",
                        "gmsh's reader and METIS are trusted"]
    return recs
