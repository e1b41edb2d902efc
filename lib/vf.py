"""Machinery shared by the checks: scratch builds of the drivers against /repo's
working tree, TLC runs, sharded driver runs, evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading, atexit, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = min(8, os.cpu_count() or 4)
STALL = 77


class CheckError(Exception):
    """The check could not decide (exit 2)."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vfchk-")
        atexit.register(shutil.rmtree, self.dir, True)
        self.spec = os.path.join(self.dir, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.native = False
        self.fallback_note = None
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.assumptions = []
        self.exhaustive = None
        self._bins = {}
        self._lock = threading.Lock()
        self.n = 0

    quick = property(lambda s: s.tier == "quick")

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, stem):
        with self._lock:
            self.n += 1
            return os.path.join(self.dir, "%s%d" % (stem, self.n))

    # ---------------------------------------------------------------- builds
    def goenv(self):
        e = dict(os.environ)
        e.update(GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local",
                 GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="", CGO_ENABLED="1")
        e.setdefault("HOME", "/root")
        return e

    def _prepare(self):
        h = self.path("h")
        if os.path.isdir(h):
            return h
        shutil.copytree(os.path.join(VERIF, "harness"), h)
        gm = open(os.path.join(h, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(h, "go.mod"), "w").write(gm)
        if os.path.exists(os.path.join(REPO, "go.sum")):
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(h, "go.sum"))
        return h

    def _go(self, h, *args):
        r = subprocess.run(["go"] + list(args), cwd=h, env=self.goenv(), capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr)

    def build(self, kind):
        """kind: 'i' instrumented, 'r' instrumented with the race detector,
        'n' native, 'nr' native with the race detector."""
        if kind in self._bins:
            return self._bins[kind]
        h = self._prepare()
        out = self.path("vdrv-" + kind)
        args = ["build", "-o", out]
        if "r" in kind:
            args.append("-race")
        if kind in ("i", "r"):
            ov = self.path("ov")
            if not os.path.isdir(ov):
                os.mkdir(ov)
                rc, o = self._go(h, "run", "./instr", REPO, ov)
                if rc != 0:
                    shutil.rmtree(ov, True)
                    return self._fallback(kind, "instrumentation failed: " + o[-400:])
            args += ["-overlay", os.path.join(ov, "overlay.json")]
        rc, o = self._go(h, *(args + ["./vdrv"]))
        if rc != 0:
            if kind in ("i", "r"):
                return self._fallback(kind, "instrumented build failed: " + o[-400:])
            raise CheckError("cannot build the driver against %s:\n%s" % (REPO, o[-3000:]))
        self._bins[kind] = out
        return out

    def _fallback(self, kind, why):
        self.native = True
        self.fallback_note = why
        self.log("falling back to the native driver:", why)
        return self.build("nr" if kind == "r" else "n")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=1, sim=None, tag=None, timeout=800, seed=None, files=None):
        """Runs TLC; returns (output path, stats).  A TLC error is a CheckError:
        it never is a verdict about the code."""
        d = self.fresh("tlc-" + (tag or module))
        os.mkdir(d)
        for f in os.listdir(self.spec):
            if f.endswith(".tla"):
                os.symlink(os.path.join(self.spec, f), os.path.join(d, f))
        open(os.path.join(d, module + ".cfg"), "w").write(cfg)
        out = os.path.join(d, "out")
        cmd = ["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "m"),
               "-config", module + ".cfg"]
        if sim:
            cmd += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(seed if seed is not None else self.seed)]
        cmd.append(module + ".tla")
        env = dict(os.environ)
        os.mkdir(os.path.join(d, "tmp"))
        env["JAVA_TOOL_OPTIONS"] = "-Xss256m -Djava.io.tmpdir=%s" % os.path.join(d, "tmp")
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=env, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC on %s ran out of time" % module)
        st = {"generated": 0, "distinct": 0, "traces": 0}
        err = None
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith('"'):
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
                if m:
                    st["generated"], st["distinct"] = int(m[1]), int(m[2])
                m = re.match(r"The number of states generated: (\d+)", l)
                if m:
                    st["generated"] = int(m[1])
                    st["distinct"] = st["distinct"] or 0
                m = re.search(r"(\d+) traces generated", l)
                if m:
                    st["traces"] = int(m[1])
                if l.startswith("Error:") and err is None:
                    err = l
        if rc != 0 or err:
            tail = subprocess.run(["bash", "-c", "grep -v '^\"' '%s' | tail -40" % out], capture_output=True, text=True).stdout
            raise CheckError("TLC failed on %s (rc %d): %s\n%s" % (module, rc, err, tail[-3000:]))
        with self._lock:
            self.states += st["distinct"] or st["generated"]
            self.transitions += st["generated"]
        return out, st

    def tlc_many(self, jobs):
        """jobs: list of kwargs for tlc, run in parallel processes."""
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(lambda k: self.tlc(**k), jobs))

    # ---------------------------------------------------------------- drivers
    def drive(self, cmd, kind="i", shards=NPROC, timeout=700, **flags):
        """Runs the driver sharded; returns the merged report."""
        reps, errs = self._drive(cmd, kind, shards, timeout, flags)
        if any(e == STALL for e in errs) and not self.native:
            self.log("a controlled run made no progress: repeating natively")
            self.native = True
            self.fallback_note = "controlled run stalled"
            reps, errs = self._drive(cmd, kind, shards, timeout, flags)
        crash = [t for t in self.stderr_tails if self.crashed(t)]
        if crash:
            self.violations.append({"prop": self.prop, "what": "the process crashes: " + crash[0].strip().splitlines()[0],
                                    "detail": crash[0].splitlines()[:40]})
        bad = [e for e in errs if e]
        if bad and not crash:
            raise CheckError("driver %s failed: %s\n%s" % (cmd, bad, "\n".join(t[-1500:] for t in self.stderr_tails[:2])))
        m = {"counts": {}, "violations": [], "found": {}, "samples": [], "notes": []}
        for r in reps:
            for k, v in r["counts"].items():
                if k in ("graph_states", "programs_generated", "program_shapes"):
                    m["counts"][k] = v
                else:
                    m["counts"][k] = m["counts"].get(k, 0) + v
            for k, v in (r["found"] or {}).items():
                m["found"][k] = m["found"].get(k, 0) + v
            m["violations"] += r["violations"] or []
            m["samples"] += r["samples"] or []
            m["notes"] += r["notes"] or []
        self.log("driver", cmd, flags.get("mode", ""), m["counts"], "found", m["found"], m["notes"][:2])
        return m

    @staticmethod
    def crashed(t):
        """Whether a dead driver's output is the code under test crashing the process."""
        m = re.search(r"^(fatal error: (stack overflow|concurrent map|all goroutines are asleep|sync: )|panic: ).*", t, re.M)
        if not m:
            return False
        g = t[m.start():].split("\n\ngoroutine ")
        first = "\n\ngoroutine ".join(g[:2])   # the goroutine at fault comes first
        return "github.com/sonirico/visigoth." in first

    def _drive(self, cmd, kind, shards, timeout, flags):
        b = self.build(kind)
        if self.native and kind in ("i", "r"):
            b = self.build("nr" if kind == "r" else "n")
        self.stderr_tails = []

        def one(i):
            out = self.fresh("rep")
            a = [b, cmd, "-out", out, "-shard", str(i), "-shards", str(shards), "-seed", str(self.seed)]
            if self.native:
                a.append("-native")
            for k, v in flags.items():
                if k == "trace":
                    v = v % i
                a += ["-" + k, str(v)]
            env = self.goenv()
            env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=%s" % (out + ".race")
            with open(out + ".err", "w") as ef:
                try:
                    rc = subprocess.run(a, stdout=ef, stderr=subprocess.STDOUT, env=env, timeout=timeout).returncode
                except subprocess.TimeoutExpired:
                    rc = 124
            if rc != 0:
                t = open(out + ".err", errors="replace").read()
                self.stderr_tails.append(t if len(t) < 12000 else t[:10000] + "\n...\n" + t[-1500:])
                return {"counts": {}, "violations": [], "found": {}, "samples": [], "notes": []}, rc
            r = json.load(open(out))
            d = os.path.dirname(out)
            r["racelog"] = [os.path.join(d, f) for f in os.listdir(d) if f.startswith(os.path.basename(out) + ".race")]
            for v in r["violations"] or []:
                if v["what"].startswith("data race") and r["racelog"]:
                    v.setdefault("detail", []).append(open(r["racelog"][0], errors="replace").read()[:3000])
            return r, 0

        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        return [r for r, _ in res], [e for _, e in res]

    def take(self, rep, key=None):
        """Keeps the violations of this check's property."""
        for v in rep["violations"]:
            if v["prop"] == self.prop:
                self.violations.append(v)
        for s in rep["samples"][:2]:
            if len(self.samples) < 6:
                self.samples.append(s)

    # ---------------------------------------------------------------- verdict
    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:6] or ["none"]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        ev["coverage"].update(self.extra)
        if self.exhaustive is not None:
            ev["coverage"]["exhaustive"] = self.exhaustive
        if self.fallback_note:
            ev["assumptions"] = ev["assumptions"] + ["schedules not controlled in this run: " + self.fallback_note[:200]]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, ensure_ascii=False)
        if self.violations:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                       "violations": self.violations[:10]}, open(p, "w"), indent=1, ensure_ascii=False)
            v = self.violations[0]
            print("broken: " + v["what"][:600])
            for d in (v.get("detail") or [])[:4]:
                print("   " + str(d)[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0), flush=True)
        return 0
