#!/usr/bin/env python3
"""check.py Cxx: decides one property on the current tree of /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from codec import *
from bench import bench_runs
import isa, kernel, random

CHECKS = {}


def check(p):
    def dec(f):
        CHECKS[p] = f
        return f
    return dec


def plain(p):
    def f(run):
        codec_check(run, p)
    CHECKS[p] = f


for p in ("C01", "C03", "C04", "C06", "C07", "C15", "C16"):
    plain(p)


def block(p, pkgs, share):
    """A property of blocks: also on the assembly itself, in the model SvbKernel."""
    def f(run):
        f = kernel.kernel_model(run, dump_tables(run, "shipped"), pkgs, share=share)
        run.futures += f
        codec_check(run, p)
    CHECKS[p] = f


block("C08", ["encode"], 1)
block("C09", ["decode"], 1)
block("C10", ["encode", "decode"], 8)

@check("C02")
def c02(run):
    design(run, "C02")
    d = run.build_driver(False)
    out = run.path("codec")
    account(run, run_shards(run, d, "C02", budget=run.quickpick(60000, 300000), secs=run.quickpick(25, 420), pct=run.quickpick(2400, 100)), "amd64")
    judge(run, out, "TracePair")


@check("C05")
def c05(run):
    design(run, "C05")
    d = run.build_driver(False)
    out = run.path("codec")
    for cfg, e in CONFIGS:
        account(run, run_shards(run, d, "C05", cfg=cfg, environ=e, budget=run.quickpick(15000, 80000), secs=run.quickpick(8, 150),
                                pct=run.quickpick(800, 100)), cfg)
    judge(run, out, "TracePair")


def ports(run):
    """Every port of the toolchain: the compiler's front end on the library, and real builds of some."""
    q = run.quickpick
    r = sh(["go", "tool", "dist", "list"], env=env())
    allports = r.stdout.split()
    d = run.build("ports", "./cmd/ports")
    r = subprocess.run([d, "-repo", REPO, "-ports", ",".join(allports)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), timeout=300)
    if r.returncode:
        raise Broken("ports: " + r.stderr[-2000:])
    if r.stderr.strip():
        # the toolchain's own packages: not the library's concern, but it has to be known
        run.note("outside the library: " + r.stderr[:500])
    events = [json.loads(x) for x in r.stdout.splitlines()]
    for p in allports:
        events.append({"op": "port", "port": p, "pkgs": [e["pkg"] for e in events if e["op"] == "package" and e["port"] == p]})
    # real builds: some in quick, all in thorough, and any port that brings assembly of its own
    real = q(["linux/arm64"], allports)
    real += sorted({e["port"] for e in events if e.get("asm") and not e["port"].endswith("/amd64")} - set(real))
    for p in real:
        goos, arch = p.split("/")
        e = env(GOOS=goos, GOARCH=arch, CGO_ENABLED="0", GOFLAGS="-mod=readonly")
        # the library, not the generators beside it: some ports link commands only with a C toolchain
        l = subprocess.run(["go", "list", "-e", "-f", '{{if and (ne .Name "main") (or .GoFiles .IgnoredGoFiles)}}{{.ImportPath}}{{end}}', "./pkg/..."], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, cwd=REPO, env=e, timeout=600)
        b = sh(["go", "build"] + (l.stdout.split() if not l.returncode else ["./pkg/..."]), cwd=REPO, env=e, timeout=600)
        if b.returncode and sh(["go", "build", "go/types", "text/template", "encoding/json"], cwd=REPO, env=e, timeout=600).returncode:
            run.note("the toolchain cannot build its own packages for " + p)
            continue
        events.append({"op": "build", "port": p, "rc": b.returncode, "log": b.stdout[-1500:] if b.returncode else ""})
    path = run.path("ports.ndjson")
    open(path, "w").write("".join(json.dumps({k: v for k, v in e.items() if k not in ("dir", "files")}) + "\n" for e in events))
    run.cov["ports"] = {"type_checked": len(allports), "built": len([e for e in events if e["op"] == "build"]), "packages": len(events)}
    run.note("%s" % run.cov["ports"])
    r = run.validate("TracePorts", path)
    if r is not None:
        run.reject(path, r[0], r[1])
    return source_sets([e for e in events if e["op"] == "package"])


def source_sets(packages):
    """The sets of files the ports' builds select, and a port for each."""
    ports = {}
    for e in packages:
        ports.setdefault(e["port"], {})[e["pkg"]] = (e["dir"], tuple(sorted(e["files"])))
    sets, own = {}, None
    for port, pkgs in sorted(ports.items()):
        goos, arch = port.split("/")
        text = "".join(open(os.path.join(d, f), errors="replace").read() for d, fs in pkgs.values() for f in fs if f.endswith(".go"))
        key = tuple(sorted(pkgs.items())), "runtime.GOARCH" in text and arch, "runtime.GOOS" in text and goos
        sets.setdefault(key, port)
        if port == "linux/amd64":
            own = key
    sets.pop(own, None)     # every other check runs that one
    return [(port, dict(key[0])) for key, port in sets.items()]


def port_tree(run, port, pkgs):
    """The library as that port sees it, in a form that builds for this machine too."""
    tree = run.path("as-" + port.replace("/", "-"))
    shutil.copytree(REPO, tree, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    goos, arch = port.split("/")
    for d, files in pkgs.values():
        dst = os.path.join(tree, os.path.relpath(d, REPO))
        texts = {f: open(os.path.join(d, f)).read() for f in files}
        for f in os.listdir(dst):
            if f.endswith((".go", ".s", ".h")):
                os.unlink(os.path.join(dst, f))
        for i, f in enumerate(files):
            t = re.sub(r"(?m)^//( ?\+build|go:build).*\n", "", texts[f])
            t = t.replace("runtime.GOARCH", '"%s"[len(runtime.GOARCH[:0]):]' % arch).replace("runtime.GOOS", '"%s"[len(runtime.GOOS[:0]):]' % goos)
            open(os.path.join(dst, "p%d_src.%s" % (i, f.rsplit(".", 1)[1])), "w").write(t)
    return tree


def bigendian(run, out):
    """The library built for a big-endian port, run by the emulator of harness/cmd/mips.
    What the emulator cannot run is not judged."""
    q = run.quickpick

    def bad(d):
        return sum(os.path.getsize(f) for f in glob.glob(os.path.join(d, "cand.*.ndjson")))

    if bad(out):
        run.note("linux/mips not run: there is something to judge without it")
        return []
    emu = run.build("mips", "./cmd/mips")
    cov = run.cov["big_endian"] = {"port": "linux/mips", "by": "emulation (harness/cmd/mips)", "run": False}
    b = run.build("driver-mips", goarch="mips", optional=True)
    db = run.build("dispatch-mips", "./cmd/dispatch", goarch="mips", optional=True)
    if not b or not db:
        return []

    def go(driver, cfg):
        dst = run.path("codec-" + cfg)
        sums = run_shards(run, driver, "C13", cfg=cfg, budget=q(12000, 60000), secs=q(40, 200), pct=10, runner=[emu], out=dst, of=q(64, 16),
                          extra=("-skip", q("huge", "none")))
        return dst, sums

    try:
        dst, sums = go(b, "mips")
        if bad(dst):
            # not seen on a native 32-bit little-endian port: an emulated one must not show it either
            le = run.build("driver-mipsle", goarch="mipsle", optional=True)
            if not le or bad(go(le, "mipsle")[0]):
                raise NotRun("also seen on emulated linux/mipsle but not on linux/386")
    except NotRun as e:
        run.note("linux/mips not run: %s" % e)
        return []
    account(run, sums, "mips")
    cov["run"] = True
    for f in glob.glob(os.path.join(dst, "*.ndjson")):
        if os.path.basename(f).startswith(("cand.", "sample.")) and ".all." not in f:
            shutil.move(f, out)
    return [("mips", [emu, db])]


@check("C13")
def c13(run):
    q = run.quickpick
    for layout in ("good", "missing stub", "overlap", "gap", "asm"):
        run.model("SvbPortsMC", name="SvbPorts-" + layout.replace(" ", "-"), expect="ok" if layout == "good" else "violated", workers=1, heap="1g",
                  consts={"Layout": '"%s"' % layout, "Archs": '{"amd64", "386", "arm64", "s390x"}', "Accel": '{"amd64"}'},
                  invs=["Once", "Found", "Same"], deadlock=False)
    design(run, "C13")
    sets = ports(run)
    d = run.build("driver386", goarch="386")
    dd = run.build("dispatch386", "./cmd/dispatch", goarch="386")
    out = run.path("codec")
    account(run, run_shards(run, d, "C13", cfg="386", budget=q(60000, 300000), secs=q(15, 300), pct=q(300, 100)), "386")
    dispatchers = [("386", [dd])]
    # other ports' files, in builds for this machine; 386 already uses those most ports use
    run.cov["source_sets"] = []
    r = subprocess.run(["go", "list", "-f", "{{.ImportPath}} {{.GoFiles}}{{.SFiles}}", "./pkg/..."], cwd=REPO, env=env(GOARCH="386", GOFLAGS="-mod=readonly"), stdout=subprocess.PIPE, text=True)
    files386 = {}
    for line in r.stdout.splitlines():
        path, fs = line.split(" ", 1)
        files386[path.split("/pkg/", 1)[-1]] = tuple(sorted(re.findall(r"[^\[\] ]+", fs)))
    for port, pkgs in sets[:q(6, 50)]:
        asm = any(f.endswith(".s") for _, fs in pkgs.values() for f in fs)
        if asm and not port.endswith("/amd64"):
            run.note("%s has assembly of its own, which cannot run here" % port)
            continue
        tree = port_tree(run, port, pkgs)
        same386 = all(files386.get(p) == fs for p, (_, fs) in pkgs.items())
        for arch in ("amd64",) if same386 or asm else ("amd64", "386"):
            cfg = port.replace("/", "-") + "-on-" + arch
            tags = () if asm else ("svbportable",)
            b = run.build("driver-" + cfg, goarch=arch, repo=tree, tags=tags)
            run.cov["source_sets"].append(cfg)
            account(run, run_shards(run, b, "C13", cfg=cfg, budget=q(20000, 150000), secs=q(8, 120), pct=q(100, 50)), cfg)
            dispatchers.append((cfg, [run.build("dispatch-" + cfg, "./cmd/dispatch", goarch=arch, repo=tree, tags=tags)]))
    dispatchers += bigendian(run, out)
    # the mode there, and calls of the general functions
    path = run.path("dispatch.ndjson")
    with open(path, "w") as g:
        for cfg, b in dispatchers:
            n = q(300, 3000) if len(b) == 1 else q(60, 600)
            r = subprocess.run([*b, "-seed", str(SEED), "-n", str(n), "-cfg", cfg], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), timeout=300)
            if r.returncode and len(b) > 1 and not ran(r.returncode, r.stderr):
                run.note("dispatch of %s not run: %s" % (cfg, r.stderr[-300:]))
                continue
            if r.returncode:
                run.fail("process ended (%d) on %s" % (r.returncode, cfg), {"log": r.stderr[-4000:]})
            g.write(r.stdout)
    t = run.validate("TraceDispatch", path, chunkless=True, workers=1, name="TraceDispatch-386")
    if t is not None:
        run.reject(path, t[0], t[1])
    judge(run, out, consts={"R": 256, "Aspect": '"all"'})


@check("C11")
def c11(run):
    q = run.quickpick
    two = {"R": 2, "Procs": "{1, 2}", "MaxCalls": 3}
    run.model("SvbConc", name="SvbConc-pure", consts={**two, "Impl": '"pure"'}, subst={"Contents": "C2"}, invs=["Pure"], deadlock=False)
    for broken in ("scratch", "memo", "arena"):
        run.model("SvbConc", name="SvbConc-" + broken, expect="violated", consts={**two, "Impl": '"%s"' % broken},
                  subst={"Contents": "C2"}, invs=["Pure"], deadlock=False)
    run.model("SvbHistories", consts={"R": 4, "Depth": q(5, 7), "NBuf": 1, "BufWords": 9, "ByteLen": 32, "MaxOpen": 2, "Counts": "{4}",
                                      "Offs": "{0, 4}", "Styles": "{0}", "Ctrls": "{27}"}, subst={"Pick": "PickAll"},
              invs=["NoOverlap", "Closable"], deadlock=False, view="Seen")
    build = run.pool.submit(lambda: run.build("driver-race", race=True))
    d = run.build("driver-plain")
    f = plans(run, q(160, 1500))
    out = run.path("session")
    os.makedirs(out)
    jobs = []

    def start(tag, cmd, **e):
        log = open(os.path.join(out, "log." + tag), "w")
        jobs.append((tag, subprocess.Popen(cmd, stdout=log, stderr=log, env=env(**e))))

    def finish(limit):
        end = time.time() + limit
        for tag, p in jobs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = "hang"
            log = open(os.path.join(out, "log." + tag)).read()
            if rc not in (0, 66):
                if "driver:" in log:
                    raise Broken("driver: " + log[-2000:])
                cand = os.path.join(out, "cand.%s.ndjson" % tag)
                if os.path.exists(cand) and os.path.getsize(cand):
                    continue
                crashes.append((tag, rc, log))
        jobs.clear()

    crashes = []
    n = q(1200, 40000)
    for i in range(4):
        start("s%d" % i, [d, "session", "-seed", str(SEED * 100 + i), "-n", str(n), "-record", str(q(6, 40)), "-out", out, "-tag", "s%d" % i,
                          "-secs", str(q(8, 200)), "-plans" if i == 0 else "-tag", f if i == 0 else "s%d" % i])
    # many processes: their first calls are concurrent ones
    for i in range(q(8, 40)):
        start("c%d" % i, [d, "conc", "-seed", str(SEED * 100 + i), "-procs", "8", "-calls", str(q(6000, 30000) if i % 4 == 0 else 600),
                          "-words", "3000" if i % 2 else "300", "-out", out, "-tag", "c%d" % i], GOGC="20" if i % 3 == 0 else "100")
        if i % 4 == 3:
            finish(300)
    finish(300)
    race = build.result()
    opts = "halt_on_error=0 exitcode=66 history_size=3 log_path=" + os.path.join(out, "race")
    start("rs", [race, "session", "-seed", str(SEED), "-n", str(q(100, 2000)), "-record", "0", "-out", out, "-tag", "rs",
                 "-secs", str(q(6, 100))], GORACE=opts)
    for i in range(q(2, 8)):     # few calls with many words each
        start("cl%d" % i, [d, "conc", "-seed", str(SEED * 30 + i), "-procs", "6", "-calls", str(q(60, 400)), "-words", "200000", "-out", out, "-tag", "cl%d" % i])
    start("rcl", [race, "conc", "-seed", str(SEED * 9), "-procs", "4", "-calls", str(q(30, 200)), "-words", "150000", "-out", out, "-tag", "rcl"], GORACE=opts)
    for i in range(q(3, 20)):
        start("rc%d" % i, [race, "conc", "-seed", str(SEED * 7 + i), "-procs", "6", "-calls", "300", "-words", "400" if i else "3000", "-out", out, "-tag", "rc%d" % i], GORACE=opts)
    finish(300)
    found = races(run, os.path.join(out, "race"))
    with open(os.path.join(out, "cand.races.ndjson"), "w") as g:
        for r in found[:10]:
            g.write(json.dumps({"op": "start"}) + "\n" + json.dumps({"op": "race", "text": r[:6000]}) + "\n")
    sums = [json.load(open(p)) for p in glob.glob(os.path.join(out, "summary.*.json"))]
    run.cov["histories"] = {"calls_of_real_code": sum(s["Calls"] for s in sums), "words": sum(s["Words"] for s in sums),
                            "histories": sum(s["Histories"] for s in sums), "recorded": sum(s["Recorded"] for s in sums),
                            "processes": len(sums), "race_reports": len(found)}
    run.note("%s" % run.cov["histories"])
    cand, sample = merge(out, "cand"), merge(out, "sample")
    if os.path.getsize(cand):
        smallest(cand, 4)
        r = run.validate("TraceSession", cand, {"R": 256}, name="TraceSession-cand", chunkless=True)
        if r is None:
            raise Broken("the driver's screening and the specification disagree on a history (%s)" % cand)
        run.reject(cand, r[0], r[1], {"history": history(cand, r[0])})
    if crashes:
        tag, rc, log = crashes[0]
        run.fail("process ended (%s) during a history of calls" % rc, {"log": log[-6000:]})
    r = run.validate("TraceSession", sample, {"R": 256}, name="TraceSession-sample", chunkless=True)
    if r is not None:
        run.reject(sample, r[0], r[1], {"history": history(sample, r[0])})
    run.sample_events(sample)

@check("C17")
def c17(run):
    q = run.quickpick
    run.model("SvbVarintMC", consts={"R": 256, "Bytes": q("{0, 127, 128}", "{0, 1, 127, 128, 255}"), "MaxN": 2},
              invs=["Typed", "Prefix", "Consumed", "Whole", "Minimal"], deadlock=False, workers=q(2, 4))
    d = run.build("varint", "./cmd/varint")
    out = run.path("varint.out")
    os.makedirs(out)
    # every value near the borders of the lengths, and a stride over all of them; thorough: all of them
    jobs = []
    for i in range(CORES):
        if run.thorough:
            w = (1 << 32) // CORES
            lo, hi, step = i * w, (i + 1) * w + (0 if i < CORES - 1 else (1 << 32) % CORES), 1
        else:
            lo, hi, step = i, 1 << 32, 61 * CORES
        jobs.append((str(i), ["-n", str(q(24000, 200000)), "-record", str(q(600, 2500)), "-lo", str(lo), "-hi", str(hi), "-step", str(step)]))
    if not run.thorough:
        for b in range(33):
            c = 1 << b
            jobs.append(("b%d" % b, ["-n", "0", "-lo", str(max(0, c - 20000)), "-hi", str(min(1 << 32, c + 20000)), "-step", "1"]))
    def go(j):
        tag, a = j
        return tag, sh([d, "-seed", str(SEED * 50 + (int(tag) if tag.isdigit() else 0)), "-out", out, "-tag", tag,
                        "-secs", str(q(20, 600)), *a], timeout=q(120, 800), env=env())
    with cf.ThreadPoolExecutor(CORES) as ex:
        for tag, r in ex.map(go, jobs):
            if r.returncode:
                if "driver:" in r.stdout:
                    raise Broken(r.stdout[-2000:])
                if not any(os.path.getsize(p) for p in glob.glob(os.path.join(out, "cand.*"))):
                    run.fail("process ended (%s) in a call of the varint codec" % r.returncode, {"log": r.stdout[-4000:]})
    sums = [json.load(open(p)) for p in glob.glob(os.path.join(out, "summary.*.json"))]
    run.cov["calls_of_real_code"] = {"calls": sum(s["Calls"] for s in sums), "words": sum(s["Words"] for s in sums),
                                     "single_values": sum(s["Single"] for s in sums), "sampled_for_tlc": sum(s["Recorded"] for s in sums),
                                     "all_single_values": run.thorough and sum(s["Single"] for s in sums) == 1 << 32}
    run.note("%s" % run.cov["calls_of_real_code"])
    judge(run, out, "TraceVarint", consts={"R": 256})


@check("C18")
def c18(run):
    q = run.quickpick
    sub = {"Start": "TStart", "Fence": "TFence", "NL": "TNL", "Rule": "TRule", "Env": "TEnv", "Bench": "TBench"}
    for algo in ("after", "any"):
        run.model("SvbBenchMC", name="SvbBenchMC-" + algo, expect="ok" if algo == "after" else "violated",
                  consts={"Algo": '"%s"' % algo, "MaxReadme": q(5, 7), "MaxLines": q(3, 4)}, subst=sub,
                  invs=["Exact", "OnlyWhenAsked", "Kept"], deadlock=False)
    path = bench_runs(run, q(160, 1500), q(4, 24))
    r = run.validate("TraceBench", path, subst={"Start": "BStart", "Fence": "BFence", "NL": "BNL", "Rule": "BRule", "Env": "BEnv", "Bench": "BBench"})
    if r is not None:
        run.reject(path, r[0], r[1])
    run.sample_events(path, limit=3000)


def dump_tables(run, of, repo=None):
    d = run.build("tables-" + of, "./cmd/tables", repo=repo)
    r = subprocess.run([d, of], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env(), text=True)
    if r.returncode:
        run.fail("reading the %s tables ended the process" % of, {"log": r.stderr[-3000:]})
    return [json.loads(x) for x in r.stdout.splitlines()]


def regenerate(run):
    """The tree with everything generated anew; and what the generators did."""
    tree = run.path("regenerated")
    shutil.copytree(REPO, tree, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    gen = []
    for base, _, files in os.walk(os.path.join(tree, "pkg")):
        for f in files:
            p = os.path.join(base, f)
            if f.endswith((".go", ".s")) and open(p, errors="replace").readline().startswith("// Code generated"):
                os.utime(p, (0, 0))
                gen.append(p)
    r = sh(["go", "generate", "./pkg/..."], cwd=tree, env=env(), timeout=400)
    stale = [os.path.relpath(p, tree) for p in gen if not os.path.exists(p) or os.stat(p).st_mtime == 0]
    run.note("go generate: exit %d, %d generated files, not rewritten: %s" % (r.returncode, len(gen), stale))
    if not gen:
        raise Broken("no generated files found")
    return tree, gen, {"what": "generate", "of": "generated", "c": 0, "v": [1 if r.returncode else 0, len(stale)],
                       "files": [os.path.relpath(p, tree) for p in gen], "log": r.stdout[-2000:] if r.returncode or stale else ""}


@check("C14")
def c14(run):
    q = run.quickpick
    run.model("SvbTablesMC", consts={"R": 256, "Sources": q("{0, 9, 15}", "0 .. 15")}, invs=["Accepts", "Packs", "Unpacks", "Rejects"], deadlock=False)
    again = run.pool.submit(lambda: regenerate(run))
    shipped = dump_tables(run, "shipped")
    plain = run.build("driver-shipped")
    tree, files, gen = again.result()
    events = [gen] + shipped
    if gen["v"] == [0, 0]:
        made = dump_tables(run, "generated", tree)
        events += made
        ship = {(e["what"], e["c"]): e["v"] for e in shipped}
        events += [{"what": "same", "of": "generated " + e["what"], "c": e["c"], "v": e["v"], "w": ship[(e["what"], e["c"])]}
                   for e in made if e["what"] in ("numlen", "ctrllen", "encode", "decode")]
    path = run.path("tables.ndjson")
    open(path, "w").write("".join(json.dumps(e) + "\n" for e in events))
    r = run.validate("TraceTables", path, {"R": 256})
    if r is not None:
        run.reject(path, r[0], r[1])
    if gen["v"] == [0, 0]:
        run.futures += kernel.kernel_model(run, made, ["encode", "decode"], repo=tree, label=" regenerated", share=4)
    regen = run.build("driver-regenerated", repo=tree)
    out = run.path("codec")
    for d, cfg in ((plain, "shipped"), (regen, "regenerated")):
        account(run, run_shards(run, d, "C14K", cfg=cfg, budget=q(60000, 400000), secs=q(12, 200), pct=q(300, 100)), cfg)
    judge(run, out, consts={"R": 256, "Aspect": '"all"'})
    run.cov["generated_files"] = gen["files"]


def cpu_configs(n):
    """CPU feature sets: with and without AVX and AVX2, and any others missing."""
    r = random.Random(SEED)
    out = [list(x) for x in ((), ("avx",), ("avx2",), ("avx", "avx2"))] + [[x] for x in INDEPENDENT] + [list(INDEPENDENT), ["all"]]
    while len(out) < n:
        out.append(sorted(r.sample(INDEPENDENT, r.randrange(1, 7)) + r.choice([[], ["avx"], ["avx2"], ["avx", "avx2"]])))
    return out[:n]


@check("C12")
def c12(run):
    q = run.quickpick
    # the two settings that satisfy all rules, and designs that break one of them
    for policy, cache, expect in (("both", "none", "ok"), ("either", "none", "violated"), ("avx", "none", "violated"), ("avx2", "none", "violated"),
                                  ("always", "none", "violated"), ("never", "none", "violated"), ("bmi2", "none", "violated"),
                                  ("both", "first", "violated"), ("both", "split", "violated")):
        run.model("SvbDispatchMC", name="SvbDispatch-%s-%s" % (policy, cache), expect=expect, workers=1, heap="1g",
                  consts={"Features": '{"avx", "avx2", "bmi2"}', "Policy": '"%s"' % policy, "Cache": '"%s"' % cache}, subst={"Needs": "TNeeds"},
                  invs=["Supported", "Used", "Stable", "Truthful"], deadlock=False)
    ov = run.instrument()
    d = ov and run.build("dispatch", "./cmd/dispatch", overlay=ov, tags=("svbinstr",), optional=True)
    d = d or run.build("dispatch", "./cmd/dispatch")
    names = []
    for p in ("encode", "decode"):
        for f in sorted(glob.glob(os.path.join(REPO, "pkg", p, "*.s"))):
            names += [p + "." + x for x in re.findall(r"(?m)^TEXT[ \t]+\u00b7(\w+)\(SB\)", open(f, encoding="utf-8").read())]
    known_isa = isa.kernels(d, names)
    path = run.path("dispatch.ndjson")
    cfgs = cpu_configs(q(64, 400))

    def go(i):
        cfg = cfgs[i]
        e = env(GODEBUG=",".join("cpu.%s=off" % x for x in cfg)) if cfg else env()
        return subprocess.run([d, "-seed", str(SEED * 1000 + i), "-n", str(q(80, 400)), "-cfg", "-".join(["without"] + cfg) if cfg else "full"],
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=120)
    counted = events = 0
    seen = set()
    with open(path, "w") as g, cf.ThreadPoolExecutor(CORES) as ex:
        for n in names:
            g.write(json.dumps({"op": "kernel", "fn": n, "needs": known_isa.get(n, [])}) + "\n")
        for i, r in enumerate(ex.map(go, range(len(cfgs)))):
            if r.returncode:
                if "driver:" in r.stderr:
                    raise Broken(r.stderr[-2000:])
                run.fail("process ended (%d) on a CPU without %s" % (r.returncode, cfgs[i]), {"log": r.stderr[-4000:]})
            first = json.loads(r.stdout.splitlines()[0])
            off = set(cfgs[i]) & set(first["feats"])
            if off:
                raise Broken("features %s could not be switched off" % off)
            counted += r.stdout.count('"counted":true')
            events += r.stdout.count("\n")
            seen.add(tuple(first["feats"]))
            g.write(r.stdout)
    run.cov["processes"] = {"cpu_configurations": len(seen), "processes": len(cfgs), "calls_counted": counted, "events": events,
                            "kernels": known_isa}
    run.note("%s" % run.cov["processes"])
    r = run.validate("TraceDispatch", path, chunkless=True, workers=1)
    if r is not None:
        run.reject(path, r[0], r[1])
    run.sample_events(path, 6)


def smallest(path, n):
    """Keeps the n smallest histories of a file."""
    hs = []
    for line in open(path):
        if line.startswith('{"op":"start"') or line.startswith('{"op": "start"'):
            hs.append([])
        hs[-1].append(line)
    hs.sort(key=lambda h: sum(map(len, h)))
    with open(path, "w") as g:
        for h in hs[:n]:
            g.writelines(h)


def history(path, idx):
    lines = open(path).read().splitlines()
    k = idx - 1
    while json.loads(lines[k])["op"] != "start":
        k -= 1
    return [json.loads(x) for x in lines[k:idx] if len(x) < 20000][-200:]


if __name__ == "__main__":
    p = sys.argv[1]
    main(p, CHECKS[p])
