"""Shared machinery of the checks: building drivers, running TLC, verdicts."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
SPEC = os.path.join(VERIF, "spec")
CORES = os.cpu_count() or 4


class Broken(Exception):
    """The check itself failed: neither a pass nor a violation."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def env(**kw):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOOS="linux", GOARCH="amd64",
             GOPATH="/root/go")
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache/go-build"))
    e["PATH"] = "/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.pop("GODEBUG", None)
    e.update(kw)
    return e


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


class Run:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.thorough = TIER == "thorough"
        self.work = tempfile.mkdtemp(prefix="svb-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.models = []
        self.futures = []
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(16)

    def quickpick(self, q, t):
        return t if self.thorough else q

    def path(self, *p):
        return os.path.join(self.work, *p)

    def note(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---- building -----------------------------------------------------------
    def modfile(self, repo=None):
        repo = repo or REPO
        name = "go" + re.sub(r"[^a-z0-9]", "_", repo) + ".mod"
        m = self.path(name)
        with self.lock:
            if not os.path.exists(m):
                s = open(os.path.join(VERIF, "harness/go.mod")).read()
                s = re.sub(r"=> \S+", "=> " + repo, s)
                open(m, "w").write(s)
                shutil.copy(os.path.join(VERIF, "harness/go.sum"), self.path(name[:-4] + ".sum"))
        return m

    def instrument(self, base=None, name="ov"):
        exe = self.path("instr")
        if not os.path.exists(exe):
            r = sh(["go", "build", "-modfile", self.modfile(), "-o", exe, "./cmd/instr"], cwd=os.path.join(VERIF, "harness"), env=env())
            if r.returncode:
                raise Broken("instr does not build:\n" + r.stdout)
        cmd = [exe, "-repo", REPO, "-out", self.path(name)]
        if base:
            cmd += ["-base", base]
        r = sh(cmd, env=env())
        if r.returncode:
            self.note("instrumentation not possible:", r.stdout.strip())
            return None
        self.note("instrumented", r.stdout.strip())
        return self.path(name, "overlay.json")

    def build(self, name="driver", pkg="./cmd/driver", overlay=None, tags=(), race=False, goarch="amd64", optional=False, repo=None):
        out = self.path(name)
        cmd = ["go", "build", "-modfile", self.modfile(repo), "-o", out]
        if overlay:
            cmd += ["-overlay", overlay]
        if tags:
            cmd += ["-tags", ",".join(tags)]
        if race:
            cmd += ["-race"]
        e = env(GOARCH=goarch, GOMIPS="softfloat")
        if not race:
            e["CGO_ENABLED"] = "0"
        r = sh(cmd + [pkg], cwd=os.path.join(VERIF, "harness"), env=e, timeout=800)
        if r.returncode:
            if optional:
                self.note("build %s failed: %s" % (name, r.stdout[-800:]))
                return None
            raise Broken("build of %s failed:\n%s" % (name, r.stdout[-4000:]))
        return out

    def build_driver(self, instrumented=True, **kw):
        """The driver, with instrumentation where that is possible."""
        if instrumented:
            ov = self.instrument()
            if ov:
                d = self.build("driver", overlay=ov, tags=("svbinstr",), optional=True, **kw)
                if d:
                    return d
        return self.build("driver-plain", **kw)

    # ---- TLC ----------------------------------------------------------------
    def tlc(self, module, consts=None, invs=(), props=(), spec="Spec", init=None, next_=None, workers=None, deadlock=True,
            name=None, constraint=None, symmetry=None, timeout=None, extra=(), heap="6g", fresh_dir=True, view=None,
            action_constraint=None, subst=None, env_extra=None, fp=None):
        """Runs TLC; returns a dict. ok / violated (with the trace) / raises Broken."""
        name = name or module
        d = self.path("tlc-" + name)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        lines = []
        for k, v in (consts or {}).items():
            lines.append("CONSTANT %s = %s" % (k, v))
        for k, v in (subst or {}).items():
            lines.append("CONSTANT %s <- %s" % (k, v))
        if init:
            lines += ["INIT " + init, "NEXT " + next_]
        else:
            lines.append("SPECIFICATION " + spec)
        lines += ["INVARIANT " + i for i in invs] + ["PROPERTY " + p for p in props]
        if constraint:
            lines.append("CONSTRAINT " + constraint)
        if action_constraint:
            lines.append("ACTION_CONSTRAINT " + action_constraint)
        if symmetry:
            lines.append("SYMMETRY " + symmetry)
        if view:
            lines.append("VIEW " + view)
        lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        cfg = os.path.join(d, "%s.cfg" % module)
        open(cfg, "w").write("\n".join(lines) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(workers or CORES), "-metadir", os.path.join(d, "meta"), "-config", cfg, "-noGenerateSpecTE",
               *extra, module + ".tla"]
        t = time.time()
        try:
            r = sh(cmd, cwd=d, timeout=timeout or 3000, env=env(**(env_extra or {})))
        except subprocess.TimeoutExpired:
            raise Broken("TLC on %s ran out of time" % name)
        open(os.path.join(d, "out.txt"), "w").write(r.stdout)
        res = {"name": name, "rc": r.returncode, "out": r.stdout, "wall": time.time() - t, "dir": d}
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", r.stdout)
        res["gen"], res["distinct"] = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if r.returncode not in (0, 12, 13, 11):
            raise Broken("TLC on %s ended with %d:\n%s" % (name, r.returncode, r.stdout[-3000:]))
        return res

    def model(self, module, name=None, expect="ok", **kw):
        """Model checks a specification of the design in the background."""
        def go():
            r = self.tlc(module, name=name, workers=kw.pop("workers", 2), **kw)
            if expect == "ok" and r["rc"] != 0:
                raise Broken("the specification %s violates its own property:\n%s" % (r["name"], r["out"][-3000:]))
            if expect == "violated" and r["rc"] == 0:
                raise Broken("the broken variant %s was accepted" % r["name"])
            self.note("model %s: %d states, %d distinct, %.1fs (%s)" % (r["name"], r["gen"], r["distinct"], r["wall"], expect))
            self.states += r["distinct"]
            self.transitions += r["gen"]
            self.models.append({"model": r["name"], "states": r["distinct"], "transitions": r["gen"], "expected": expect,
                                "consts": {k: str(v) for k, v in (kw.get("consts") or {}).items()}})
            return r
        f = self.pool.submit(go)
        self.futures.append(f)
        return f

    def apalache(self, module, inv, cinit, init=None, length=0, name=None, expect="ok", timeout=800):
        """Checks an invariant of a specification symbolically, in the background."""
        name = name or "%s-%s" % (module, inv)

        def go():
            d = self.path("apa-" + name)
            shutil.copytree(SPEC, d)
            cmd = ["apalache-mc", "check", "--cinit=" + cinit, "--inv=" + inv, "--length=%d" % length,
                   "--out-dir=" + os.path.join(d, "out")] + (["--init=" + init] if init else []) + [module + ".tla"]
            t = time.time()
            try:
                r = sh(cmd, cwd=d, timeout=timeout, env=env(JVM_ARGS="-Xmx2g -Djava.io.tmpdir=" + d, TMPDIR=d))
            except subprocess.TimeoutExpired:
                raise Broken("Apalache on %s ran out of time" % name)
            if r.returncode not in (0, 12):
                raise Broken("Apalache on %s ended with %d:\n%s" % (name, r.returncode, r.stdout[-3000:]))
            if (r.returncode == 0) != (expect == "ok"):
                raise Broken("Apalache on %s: expected %s, got %d:\n%s" % (name, expect, r.returncode, r.stdout[-3000:]))
            self.note("apalache %s: %.1fs (%s)" % (name, time.time() - t, expect))
            self.models.append({"model": name, "engine": "apalache", "expected": expect, "init": init or "Init", "steps": length})
            shutil.rmtree(d, ignore_errors=True)
        f = self.pool.submit(go)
        self.futures.append(f)
        return f

    def induct(self, module, cinit, init, step, inv, rules, name):
        """An inductive invariant, for every value of the parameters: it holds at the start, every step keeps it, and it implies the rules."""
        self.apalache(module, inv, cinit, init=init, name=name + "-start")
        self.apalache(module, inv, cinit, init=step, length=1, name=name + "-step")
        self.apalache(module, rules, cinit, init=step, name=name + "-implies")

    def wait_models(self):
        while self.futures:
            self.futures.pop(0).result()

    def validate(self, module, trace, consts=None, chunks=None, name=None, workers=None, always=False, chunkless=False, subst=None):
        """Validates an event file. Returns None or (index, reason)."""
        n = sum(1 for _ in open(trace, "rb"))
        if n == 0 and not always:
            return None
        ch = chunks or max(1, min(256, n))
        c = {"TraceFile": '"%s"' % trace}
        if not chunkless:
            c["Chunks"] = ch
        c.update(consts or {})
        r = self.tlc(module, consts=c, invs=["Conforms"], name=name or (module + "-trace"), workers=workers, subst=subst,
                     heap=self.quickpick("8g", "12g"))
        if r["rc"] == 0:
            if r["distinct"] < n:
                raise Broken("TLC looked at %d states for %d events" % (r["distinct"], n))
            self.states += r["distinct"]
            self.transitions += r["gen"]
            self.traces += n
            self.note("%s accepted %d events (%d states, %.1fs)" % (r["name"], n, r["distinct"], r["wall"]))
            return None
        if r["rc"] == 11:
            raise Broken("trace specification %s deadlocked:\n%s" % (module, r["out"][-3000:]))
        last = r["out"].rfind("State ")
        tail = r["out"][last:]
        l = re.search(r"\bl = (\d+)", tail)
        bad = re.search(r'\bbad = "((?:[^"\\]|\\.)*)"', tail)
        if not l or not bad:
            raise Broken("cannot read TLC's counterexample:\n" + r["out"][-3000:])
        why = bad.group(1)
        if why.startswith("contract:"):
            raise Broken("driver error, event %s: %s" % (l.group(1), why))
        return int(l.group(1)), why

    # ---- verdicts -----------------------------------------------------------
    def event(self, trace, idx):
        for k, line in enumerate(open(trace), 1):
            if k == idx:
                return json.loads(line)
        raise Broken("no event %d" % idx)

    def reject(self, trace, idx, why, extra=None):
        ev = self.event(trace, idx)
        self.fail(why, {"event": ev, **(extra or {})}, key=self.describe(ev) + ": " + why)

    def describe(self, ev):
        return " ".join(str(ev[k]) for k in ("fn", "what", "left", "right", "op", "port", "pkg", "cfg") if k in ev)

    def fail(self, why, payload, key=None):
        """A deviation of the real code from the specification."""
        key = key or why
        for pat, text in known(self.prop):
            if re.search(pat, key):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
                return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        p = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (self.prop, TIER, SEED))
        json.dump({"property": self.prop, "tier": TIER, "seed": SEED, "why": why, **payload}, open(p, "w"), indent=1)
        raise Violation(key, p)

    def evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:6], "models": self.models}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)

    def sample_events(self, trace, k=3, limit=1500):
        n = 0
        for line in open(trace):
            if len(line) < limit and n < k:
                self.samples.append(json.loads(line))
                n += 1

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


def known(prop):
    """Open findings of the committed known-findings file."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(prop, fn):
    run = Run(prop)
    rc = 2
    try:
        fn(run)
        run.wait_models()
        run.evidence(0)
        run.note("%s holds on everything explored" % prop)
        rc = 0
    except Violation as v:
        run.evidence(1)
        print("deviation: " + v.what[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        rc = 1
    except Broken as b:
        print("CHECK BROKEN: %s" % b, flush=True)
    except subprocess.TimeoutExpired as b:
        print("CHECK BROKEN: %s" % b, flush=True)
    finally:
        run.close()
    sys.stdout.flush()
    os._exit(rc)
