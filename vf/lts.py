"""Builds the concurrency harness (the real solver with recording kernels) and runs cases."""
import concurrent.futures as cf, json, os
from . import targets as T
from .core import REPO, HARN, JOBS, CheckError, sh

L = HARN + "/lts"
SRC = REPO + "/src"
#: sources whose memory accesses are scheduling points
INSTR = ["time/Manager.cpp", "time/TimeGroupStatic.cpp", "parallel/Shared.cpp", "parallel/LoadBalancing.cpp",
         "io/Receivers.cpp"]
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]


def flags(el, cruns, rms, mpi, order=2, prec=64, eq="SEISMIC"):
    f = ["-std=c++11", "-O1", "-g0", "-w", "-fopenmp", "-DPP_USE_OMP", "-DPP_USE_EASYLOGGING", "-DEIGEN_MAX_STATIC_ALIGN_BYTES=0",
         '-DPP_EDGE_VERSION="offline"', "-DPP_HAS_HDF5", "-DPP_N_CRUNS=%d" % cruns, "-DPP_ORDER=%d" % order, "-DPP_PRECISION=%d" % prec,
         "-DPP_T_ELEMENTS_" + el, "-DPP_T_EQUATIONS_" + eq, "-DPP_N_RELAXATION_MECHANISMS=%d" % rms, "-DPP_T_KERNELS_VANILLA",
         "-I" + L, "-I" + L + "/include", "-I" + HARN + "/stubs", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial",
         "-I" + REPO, "-I" + SRC, "-I/opt/vp/deps/include"]
    if mpi:
        f.append("-DPP_USE_MPI")
    return f


def solver_sources(eq="seismic"):
    skip = ["tests.cpp", "main.cpp", "parallel/Gaspi.cpp"] + ["impl/" + e for e in ("seismic", "advection", "swe") if e != eq]
    return T.walk(SRC, skip=skip) + [REPO + "/submodules/visit_writer/visit_writer.cpp", REPO + "/submodules/FastGL/fastgl.cpp"]


def build(ctx, name, el, cruns, rms, mpi):
    fl = flags(el, cruns, rms, mpi)
    inc = ["-include", L + "/mock.h"]
    srcs = []
    for s in solver_sources():
        rel = os.path.relpath(s, SRC)
        if not mpi and rel == "parallel/MpiRemix.cpp":
            continue
        srcs.append((s, inc + (TSAN if rel in INSTR else [])))
    srcs.append((SRC + "/main.cpp", inc + ["--vf-rename=main=edge_main"]))
    srcs += [(T.EASY[0], T.EASY[1]), (L + "/rt.cpp", []), (L + "/gen.cpp", []), (L + "/main.cpp", [])]
    return ctx.build(name, srcs, fl, ["-lpugixml", "-lpthread", "-ldl", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_hl.so", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so"], runtimes=False)


def run_cases(ctx, exe, seed, n, mpi, stress, first=0, timeout=600):
    """Runs n cases in parallel; returns the list of records (dicts)."""
    parts = [(first + k * n // JOBS, (k + 1) * n // JOBS - k * n // JOBS) for k in range(JOBS)]
    parts = [p for p in parts if p[1] > 0]

    def one(p):
        out = os.path.join(ctx.work, "%s_%d_%d.ndjson" % (os.path.basename(exe), stress, p[0]))
        wd = out + ".d"
        os.makedirs(wd, exist_ok=True)
        rc, o, e = sh([exe, str(seed), str(p[0]), str(p[1]), str(int(mpi)), str(stress), wd, out], timeout=timeout)
        if rc != 0:
            raise CheckError("lts harness rc %s: %s" % (rc, (o + e)[-2000:]))
        res = [json.loads(l) for l in open(out)]
        msgs = {}
        for l in e.splitlines():
            w = l.split()
            if len(w) > 2 and w[0] == "case":
                msgs.setdefault(int(w[1]), []).append(l)
        for r in res:
            r["err"] = msgs.get(r["case"], [])[:20]
        os.unlink(out)
        return res
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [r for l in ex.map(one, parts) for r in l]


#: clauses of the contract (spec/Lts.tla, spec/LtsTrace.tla) which concern each property; a run which does not end concerns all
CLAUSES = {
    "C01": ["neighbour data", "concurrent updates", "neighbour ids", "remote neighbour", "operators of another", "step before previous", "non-contributing", "data of a remote"],
    "C02": ["step length", "concurrent updates", "gap", "own data", "source", "next interval", "unfinished", "end time", "step before previous", "twice"],
    "C03": ["twice", "concurrent updates", "step before previous", "work before prediction", "unfinished", "foreign element"],
    "C04": ["remote neighbour", "data of a remote", "messages left over", "message size"],
    "C16": ["receiver"],
}


def check(ctx, prop, plan):
    """plan: list of (element type, fused runs, mechanisms, mpi, stress, number of cases)."""
    from collections import Counter
    ends, kinds, builds = Counter(), Counter(), {}
    tot = Counter()
    for k, (el, cr, rms, mpi, stress, n) in enumerate(plan):
        if ctx.violations:      # enough to tell, and hanging runs are slow
            break
        key = (el, cr, rms, mpi)
        if key not in builds:
            builds[key] = build(ctx, "lts_%s_%d_%d_%d" % key, el, cr, rms, mpi)
        recs = run_cases(ctx, builds[key], ctx.seed, n, mpi, stress)
        for r in recs:
            ends[r["end"]] += 1
            tot["events"] += len(r["ev"])
            tot["switches"] += r["switches"]
            tot["samples"] += sum(len(x[2]) for x in r["recvs"])
            kinds["ranks=%d threads=%d groups=%d" % (r["ranks"], r["threads"], r["tgs"])] += 1
        if k == 0 and recs:
            r = recs[0]
            ctx.sample(dict(case=r["case"], ranks=r["ranks"], threads=r["threads"], groups=r["tgs"], elements=len(r["tg"]), syncs=r["syncs"], first_events=r["ev"][:6]))
        ctx.judge("LtsTrace", recs, only=CLAUSES[prop] + ["run does not end"], replay_of=lambda i, recs=recs, p=plan[k]: dict(plan=p, seed=ctx.seed, case=recs[i]["case"], err=recs[i]["err"]))
    ctx.extra["runs_of_the_real_solver"] = dict(tot)
    ctx.extra["ends"] = dict(ends)
    ctx.extra["distinct_layouts"] = len(kinds)
    ctx.assumptions += ["time is an exact multiple of half of the fundamental time step in every case; the numerical kernels, source terms and initial values are stand-ins which record which data they get",
                        "interleavings are those of sequentially consistent memory with a scheduling point at every memory access of time/*, parallel/Shared, parallel/LoadBalancing and io/Receivers, at every kernel call, MPI call and file write; they are sampled (seeded), not enumerated"]
