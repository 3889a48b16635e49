"""The assembly functions in the model SvbKernel: all control values, all data."""
import glob, json, os, random, subprocess
from vlib import *
import asm


def read_programs(run, repo, pkg):
    go = "\n".join(open(f, encoding="utf-8").read() for f in sorted(glob.glob(os.path.join(repo, "pkg", pkg, "*.go"))) if not f.endswith("_test.go"))
    res = {}
    for f in sorted(glob.glob(os.path.join(repo, "pkg", pkg, "*.s"))):
        res.update(asm.programs(open(f, encoding="utf-8").read(), go))
    return res


def zero_bytes(r, ctrl):
    """Which bytes of the 8 stored words are 0, for the words this control value announces."""
    z = []
    for k in range(8):
        n = ((ctrl >> 2 * k) & 3) + 1
        w = [r.randrange(2) for _ in range(n - 1)] + [0] + [1] * (4 - n)
        if n == 1:
            w[0] = r.randrange(2)
        z += w
    return z


def concrete(r, p, ctrl):
    """Concrete inputs with this control value, for a decoder or encoder."""
    prev = [r.choice([0, 255, r.randrange(256)]) for _ in range(4)]
    if p["kind"] == "dec":
        return [r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(32)], prev
    z = zero_bytes(r, ctrl)
    ws = [sum((0 if z[4 * k + j] else r.randrange(1, 256)) << 8 * j for j in range(4)) for k in range(8)]
    if p["delta"]:
        s = int.from_bytes(bytes(prev), "little")
        for k in range(8):
            s = (s + ws[k]) & 0xFFFFFFFF
            ws[k] = s
    return [(w >> 8 * j) & 255 for w in ws for j in range(4)], prev


def kernel_model(run, tables, pkgs, repo=None, label="", share=1):
    """TLC on every assembly function of these packages. tables: events of cmd/tables."""
    repo = repo or REPO
    t = {}
    for e in tables:
        t.setdefault(e["what"], {})[e["c"]] = e["v"]
    progs, left = [], []
    for pkg in pkgs:
        shuf = [b for c in range(256) for b in t["encode" if pkg == "encode" else "decode"][c]]
        for n, p in sorted(read_programs(run, repo, pkg).items()):
            fn = n[:-3] if n.endswith("Asm") else n
            if isinstance(p, str) or fn not in ("Put8uint32Fast", "Put8uint32DeltaFast", "Get8uint32Fast", "Get8uint32DeltaFast"):
                left.append("%s.%s (%s)" % (pkg, n, p if isinstance(p, str) else "not a known function"))
                continue
            p["fn"], p["tables"] = fn, {"shuf": shuf, "len": [t["ctrllen"][c][0] for c in range(256)]}
            progs.append(p)
    cov = {"modelled": [p["name"] for p in progs], "not_modelled": left}
    run.cov["kernels_in_the_model" + label] = cov
    if left:
        run.note("not modelled: %s" % left)
    d = run.build("kernels" + label, "./cmd/kernels", repo=repo if repo != REPO else None)
    r = random.Random(SEED)
    stamp = "".join(c if c.isalnum() else "-" for c in label)

    def go(p, part):
        tag = "%s%s-%d" % (p["fn"], stamp, part[0])
        pf, jf = run.path("prog-" + tag + ".ndjson"), run.path("jobs-" + tag + ".ndjson")
        open(pf, "w").write(json.dumps(p) + "\n")
        rr = random.Random(SEED * 7919 + part[0])
        base = {"p": 1, "fn": p["fn"], "zero": [0] * 32, "in": [0] * 32, "prev": [0] * 4, "out": [0] * 32, "ret": 0}
        rep = []
        for _ in range(run.quickpick(60, 400)):
            c = rr.choice([rr.randrange(65536), rr.choice([0, 0xFFFF, 0x00FF, 0xFF00, 0x5555, 0x1B1B])])
            i, pv = concrete(rr, p, c)
            rep.append({**base, "mode": "replay", "ctrl": c, "in": i, "prev": pv})
        o = subprocess.run([d], input="".join(json.dumps(j) + "\n" for j in rep), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=env(), timeout=120)
        if o.returncode:
            if "driver:" in o.stderr:
                raise Broken(o.stderr[-2000:])
            return  # the memory of a process was damaged; the other parts of the check are about that
        jobs = o.stdout.splitlines()
        for c in part[1]:
            jobs.append(json.dumps({**base, "mode": "all", "ctrl": c, "zero": zero_bytes(rr, c) if p["kind"] == "enc" else [0] * 32}))
        open(jf, "w").write("\n".join(jobs) + "\n")
        res = run.tlc("SvbKernel", name="SvbKernel-" + tag, consts={"ProgFile": '"%s"' % pf, "JobFile": '"%s"' % jf, "Chunks": 16, "R": 256},
                      invs=["Conforms"], deadlock=False, workers=run.quickpick(2, 4), heap="3g")
        with run.lock:
            run.states += res["distinct"]
            run.transitions += res["gen"]
            run.models.append({"model": "SvbKernel " + p["name"] + label, "states": res["distinct"], "transitions": res["gen"],
                               "control_values": len(part[1]), "replayed_calls": len(rep), "accepted": res["rc"] == 0})
        run.note("SvbKernel %s%s: %d control values, %d replays, %d states, %.1fs, rc %d" %
                 (p["name"], label, len(part[1]), len(rep), res["distinct"], res["wall"], res["rc"]))
        if res["rc"] == 0:
            run.traces += len(rep)
            return
        tail = res["out"][res["out"].rfind("State "):]
        l, why = re.search(r"\bl = (\d+)", tail), re.search(r'\bbad = "([^"]*)"', tail)
        if not l:
            run.note("SvbKernel could not evaluate %s: %s" % (p["name"], res["out"][-600:]))
            cov["not_modelled"].append(p["name"] + " (evaluation)")
            return
        j = json.loads(jobs[int(l.group(1)) - 1])
        run.note("SvbKernel: %s: %s for control value %d (%s)" % (p["name"], why and why.group(1), j["ctrl"], j["mode"]))
        cov.setdefault("model_counterexamples", []).append({"fn": p["name"], "ctrl": j["ctrl"], "mode": j["mode"], "why": why and why.group(1)})
        confirm(run, d, p, j, why and why.group(1), tag)

    full = list(range(65536))
    futures = []
    for p in progs:
        if run.thorough:
            parts = [(i, full[i::4]) for i in range(4)] if share == 1 else [(0, full[SEED % share::share])]
        else:
            n = 512 // share
            cs = {c | c * 77 % 256 << 8 for c in range(256)} if share == 1 else set()
            while len(cs) < n:
                cs.add(r.randrange(65536))
            parts = [(0, sorted(cs))]
        for part in parts:
            futures.append(run.pool.submit(go, p, part))
    return futures


def confirm(run, d, p, j, why, tag):
    """A counterexample of the model counts only if the real function shows it."""
    r = random.Random(SEED)
    calls = []
    for k in range(400):
        c = j["ctrl"] if k < 300 else r.randrange(65536)
        i, pv = (j["in"], j["prev"]) if k == 0 and j["mode"] == "replay" else concrete(r, p, c)
        calls.append({**j, "mode": "replay", "ctrl": c, "in": i, "prev": pv})
    o = subprocess.run([d], input="".join(json.dumps(x) + "\n" for x in calls), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       env=env(), timeout=120)
    if o.returncode:
        return
    path = run.path("confirm-" + tag + ".ndjson")
    with open(path, "w") as g:
        for line in o.stdout.splitlines():
            x = json.loads(line)
            ob = [max(b, 0) for b in x["out"]]
            e = p["kind"] == "enc"
            c = x["ret"] if e else x["ctrl"]
            unw = [] if e else [k for k in range(8) if any(b < 0 for b in x["out"][4 * k:4 * k + 4])]
            g.write(json.dumps({"fn": x["fn"], "cfg": "kernel", "kind": "put" if e else "get", "shape": "8", "impl": "fast", "delta": p["delta"],
                                "prev": x["prev"], "count": 8, "words": x["in"] if e else ob, "wlen": 8, "bytes": ob if e else x["in"],
                                "ctrl": [c % 256, c // 256], "ret": -1, "res": "ok", "chg": [], "unw": unw}) + "\n")
    t = run.validate("TraceCodec", path, {"R": 256, "Aspect": '"value"'}, name="TraceCodec-" + tag, workers=1)
    if t is not None:
        run.reject(path, t[0], t[1], {"model": why})
    run.note("the model's counterexample for %s was not confirmed by the real function: it decides nothing" % p["name"])
