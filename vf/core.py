"""Shared machinery: building drivers from /repo, running TLC, judging records, writing evidence.

Outcomes of a check: exit 0 (held), exit 1 + VIOLATION line, exit 2 (the check itself could not decide).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, "_cache")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check cannot decide (machinery problem): exit 2."""


def sh(cmd, timeout=None, env=None, cwd=None, input=None):
    """Runs a command in its own process group; returns (rc, stdout, stderr). rc=-9999 on timeout."""
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         start_new_session=True, text=True, errors="replace")
    try:
        out, err = p.communicate(input=input, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = -9999
    return rc, out, err


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.level = level
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "_work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(CACHE, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.violations = []     # (what, replay dict)
        self.models = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(kf))["findings"] if k.get("property") == prop] if os.path.exists(kf) else []
        self.known_hit = {}

    # ---------------------------------------------------------------- building
    def compile(self, src, flags, obj_name=None):
        """Compiles one source to an object; cached by its preprocessed text and flags."""
        cxx = "g++"
        ren = [f[len("--vf-rename="):] for f in flags if f.startswith("--vf-rename=")]
        base = [cxx] + [f for f in flags if not f.startswith("--vf-rename=")]
        rc, out, err = sh(base + ["-E", src], timeout=600)
        if rc != 0:
            raise CheckError("preprocessing %s failed:\n%s" % (src, err[-4000:]))
        h = hashlib.sha256(("\0".join(base + ren) + "\0" + out).encode()).hexdigest()[:40]
        obj = os.path.join(CACHE, h + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.%s.tmp" % (os.getpid(), hashlib.md5(src.encode()).hexdigest()[:6])
            rc, _, err = sh(base + ["-c", src, "-o", tmp], timeout=900)
            if rc != 0:
                raise CheckError("compiling %s failed:\n%s" % (src, err[-4000:]))
            for r in ren:
                rc, _, err = sh(["objcopy", "--redefine-sym", r, tmp])
                if rc != 0:
                    raise CheckError("objcopy %s: %s" % (src, err))
            os.rename(tmp, obj)
        return obj

    def build(self, name, sources, flags, link=(), runtimes=True):
        """sources: list of path or (path, extra flags)."""
        exe = os.path.join(self.work, name)
        items = [(s, []) if isinstance(s, str) else s for s in sources]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda it: self.compile(it[0], list(flags) + list(it[1])), items))
        rc, _, err = sh(["g++"] + [f for f in flags if runtimes and (f.startswith("-fsanitize") or f == "-fopenmp")] + objs + ["-o", exe] + list(link), timeout=600)
        if rc != 0:
            raise CheckError("linking %s failed:\n%s" % (name, err[-4000:]))
        return exe

    # ---------------------------------------------------------------- drivers
    def drive(self, cmd, timeout=300, env=None, what="driver"):
        """Runs a driver of real code. A crash/abort/hang of the real code that repeats is a violation.
        Returns stdout or None if it was a (recorded) violation."""
        rc, out, err = sh(cmd, timeout=timeout, env=env, cwd=self.work)
        if rc == 0:
            return out
        if rc == 3:   # drivers exit with 3 for problems of their own
            raise CheckError("%s: driver problem: %s" % (what, (err + out)[-3000:]))
        rc2, out2, err2 = sh(cmd, timeout=timeout, env=env, cwd=self.work)
        if rc2 == 0:
            raise CheckError("%s: failed once (rc %s) but not on the re-run: %s" % (what, rc, err[-2000:]))
        kind = "hang (over %d s)" % timeout if rc2 == -9999 else ("signal %d" % -rc2 if rc2 < 0 else "exit %d" % rc2)
        self.violation("%s: the code under test ended with %s" % (what, kind),
                       dict(cmd=cmd, rc=rc2, stdout_tail=out2[-3000:], stderr_tail=err2[-3000:]))
        return None

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), heap="2g", name=None):
        meta = os.path.join(self.work, "tlc_%s_%d_%s" % (name or module, os.getpid(), hashlib.md5(repr((cfg, sorted((env or {}).items()), time.time())).encode()).hexdigest()[:8]))
        os.makedirs(meta)
        if "\n" in cfg:
            cpath = os.path.join(meta, "m.cfg")
            open(cpath, "w").write(cfg)
        else:
            cpath = os.path.join(SPEC, cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cpath] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        rc, out, err = sh(cmd, timeout=timeout, env=env, cwd=meta)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        res = dict(rc=rc, out=out, err=err, generated=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0)
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        res["depth"] = int(d[-1]) if d else 0
        return res

    def model_check(self, module, cfg, env=None, workers=4, timeout=800, extra=(), heap="6g", expect_actions=()):
        """Exhaustive check of a design model. A failure of the *model* is a machinery error (the model is fixed)."""
        t = time.time()
        r = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra, heap=heap)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise CheckError("model %s/%s: TLC rc=%s\n%s" % (module, cfg.split("\n")[0], r["rc"], r["out"][-3000:] + r["err"][-500:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append(dict(module=module, cfg=cfg if "\n" not in cfg else "(inline)", distinct=r["distinct"], generated=r["generated"], depth=r["depth"], wall_s=round(time.time() - t, 1)))
        return r

    def judge(self, module, records, chunk=None, env=None, heap="3g", timeout=700, consts="", replay_of=None, name=None, only=None):
        """Record validation: every record must satisfy the spec module's relation (module extends RecCheck idiom).
        records: list of dict (or JSON strings). Rejections are re-judged in isolation before they count.
        Returns the list of rejected (index, clauses)."""
        lines = [r if isinstance(r, str) else json.dumps(r, separators=(",", ":")) for r in records]
        if not lines:
            raise CheckError("%s: no records to judge" % module)
        chunk = chunk or max(1, (len(lines) + JOBS - 1) // JOBS)
        parts = [(i, lines[i:i + chunk]) for i in range(0, len(lines), chunk)]

        def one(part):
            off, ls = part
            return self._judge_chunk(module, off, ls, env, heap, timeout, consts)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rejects = [x for l in ex.map(one, parts) for x in l]
        confirmed = []
        if only is not None:      # clauses which concern the checked property (a record which cannot be evaluated concerns all)
            rejects = [(i, c) for i, c in rejects if not c or any(x.startswith("not evaluable") or any(x.startswith(o) for o in only) for x in c)]
        for idx, clauses in rejects[:20]:
            again = self._judge_chunk(module, idx, [lines[idx]], env, heap, timeout, consts, count=False)
            if not again:
                raise CheckError("%s: record %d rejected once but not in isolation" % (module, idx))
            confirmed.append((idx, again[0][1]))
        if os.environ.get("VERIF_WRITE_CONTROL") and not rejects:      # (re)creates the committed control record
            os.makedirs(os.path.join(SPEC, "control"), exist_ok=True)
            with open(os.path.join(SPEC, "control", module + ".ndjson"), "w") as f:
                f.write(min(lines, key=len) + "\n")
        self.traces += len(lines)
        self.evals += len(lines)
        for idx, clauses in confirmed:
            self.violation("%s rejects record %d: %s" % (module, idx, ", ".join(clauses) or "relation violated"),
                           dict(module=module, record=json.loads(lines[idx]), clauses=clauses, case=(replay_of(idx) if replay_of else None)))
        return confirmed

    def _judge_chunk(self, module, off, ls, env, heap, timeout, consts, count=True):
        todo = list(range(len(ls)))
        rej = []
        guard = 0
        while todo:
            guard += 1
            path = os.path.join(self.work, "rec_%s_%d_%d_%d.ndjson" % (module, off, len(ls), guard))
            with open(path, "w") as f:
                for i in todo:
                    f.write(ls[i] + "\n")
            e = dict(env or {})
            e["TRACE"] = path
            cfg = "SPECIFICATION RecSpec\nCHECK_DEADLOCK FALSE\n" + consts + "\n"
            r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap, name=module + str(off))
            os.unlink(path)
            out = r["out"]
            clauses, got, pend = {}, [], []
            for m in re.finditer(r'<<"CLAUSE", "([^"]*)">>|<<"REJECT", (\d+)>>', out):   # the clauses precede the rejection of their record
                if m.group(2) is None:
                    pend.append(m.group(1))
                else:
                    g = int(m.group(2))
                    if g not in got:
                        got.append(g)
                    clauses.setdefault(g, []).extend(pend)
                    pend = []
            for g in got:
                rej.append((off + todo[g - 1], sorted(set(clauses.get(g, [])))))
            if r["rc"] == 0 and "No error has been found" in out and r["distinct"] == len(todo) + 1:
                if count:
                    self.states += r["distinct"]
                    self.transitions += r["generated"]
                break
            # evaluation error in one record: the record is not even of the shape the specification admits
            m = re.findall(r"^(?:/\\ )?recno = (\d+)", out, re.M)
            if r["rc"] in (-9999,) or "Parsing or semantic analysis failed" in out or "OutOfMemory" in out + r["err"] or "Error: " not in out or "Could not" in out:
                raise CheckError("%s: TLC failed (rc %s): %s %s" % (module, r["rc"], out[-3000:], r["err"][-500:]))
            at = max([int(x) for x in m] + [0]) + 1      # record being evaluated when TLC stopped
            if at > len(todo) or not self._control(module, env, heap, timeout, consts):
                raise CheckError("%s: TLC evaluation error: %s" % (module, out[-3000:]))
            msg = re.sub(r"\s+", " ", out[out.find("Error: "):][:400])
            rej.append((off + todo[at - 1], ["not evaluable: " + msg]))
            if guard > 8:      # enough to tell
                break
            todo = todo[at:]
        return rej

    def _control(self, module, env, heap, timeout, consts):
        """An accepted control record (committed with the spec) shows that the specification itself evaluates."""
        c = os.path.join(SPEC, "control", module + ".ndjson")
        if not os.path.exists(c):
            return False
        e = dict(env or {})
        e["TRACE"] = c
        r = self.tlc(module, "SPECIFICATION RecSpec\nCHECK_DEADLOCK FALSE\n" + consts + "\n", env=e, workers=1, timeout=timeout, heap=heap)
        return r["rc"] == 0 and "REJECT" not in r["out"]

    # ---------------------------------------------------------------- verdicts
    def violation(self, what, replay):
        for k in self.known:
            if all(s in what or s in json.dumps(replay) for s in k["match"]):
                self.known_hit[k["id"]] = k["what"]
                return
        self.violations.append((what, replay))

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples, models=self.models, **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, w in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if self.violations:
            rp = os.path.join(VERIF, "evidence", self.prop + ".replay.json")
            json.dump([dict(what=w, replay=r) for w, r in self.violations], open(rp, "w"), indent=1, default=str)
            for w, _ in self.violations[:10]:
                print("violated: " + w)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.tier, self.states, self.traces, time.time() - self.t0))
        return 0


def main(prop, fn, level="model_checking"):
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
        if ctx.traces == 0 and not ctx.violations:
            raise CheckError("nothing was validated against the implementation")
        rc = ctx.finish()
    except CheckError as e:
        if ctx.violations:
            rc = ctx.finish()
        else:
            print("CHECK-ERROR property=%s %s" % (prop, e))
            rc = 2
    shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
