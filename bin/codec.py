"""Runs of the codec driver: many calls, screened by the driver, judged by TLC."""
import glob, json, os, re, subprocess, time
from vlib import *


def run_shards(run, driver, prop, cfg="amd64", environ=None, shards=CORES, budget=12000, secs=20, pct=100, out=None, impl="", runner=(), of=None, extra=()):
    """Runs the driver's shards in parallel, under the emulator runner if given;
    of: the number of shards the calls are divided into, of which only some run."""
    out = out or run.path("codec")
    os.makedirs(out, exist_ok=True)
    e = env(**(environ or {}))
    procs = []
    for i in range(shards):
        cmd = [*runner, driver, "codec", "-prop", prop, "-tier", TIER, "-seed", str(SEED), "-shard", str(i), "-shards", str(of or shards),
               "-out", out, "-budget", str(budget // shards), "-secs", str(secs), "-cfg", cfg, "-pct", str(pct), "-impl", impl, *extra]
        log = open(os.path.join(out, "log.%s.%d" % (cfg, i)), "w")
        procs.append((i, subprocess.Popen(cmd, stdout=log, stderr=log, env=e)))
    sums, crashed = [], []
    deadline = time.time() + (secs * 4 + 100 if runner else secs * 3 + 60)
    for i, p in procs:
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "hang"
        if rc == 0:
            sums.append(json.load(open(os.path.join(out, "summary.%s.%d.json" % (cfg, i)))))
        else:
            crashed.append((i, rc))
    for i, rc in crashed:
        log = open(os.path.join(out, "log.%s.%d" % (cfg, i))).read()
        if rc == 3 and "driver:" in log:
            raise Broken("driver: " + log[-2000:])
        if runner and not ran(rc, log):
            raise NotRun("the emulator ended (%s): %s" % (rc, log[-500:]))
        crash(run, driver, prop, cfg, e, out, i, of or shards, rc, log, impl, runner)
    return sums


class NotRun(Exception):
    """The emulator could not run a program: nothing is known about it."""


def ran(rc, log):
    return rc == "hang" or not (rc in (124, 125, 126) or rc < 0 or "mips: " in log)


def crash(run, driver, prop, cfg, e, out, i, shards, rc, log, impl="", runner=()):
    """The driver process ended or hung in a call: repeat that call alone."""
    if "panic: driver:" in log:
        raise Broken("driver: " + log[-2000:])
    import struct
    j = open(os.path.join(out, "journal.%s.%d" % (cfg, i)), "rb").read(16)
    fam, idx = struct.unpack("<QQ", j)
    run.note("driver process of shard %d ended (%s) in family %d call %d; repeating it" % (i, rc, fam, idx))
    # candidates recorded before the crash count on their own
    cmd = [*runner, driver, "codec", "-prop", prop, "-tier", TIER, "-seed", str(SEED), "-shard", str(100 + i), "-shards", str(shards),
           "-out", out, "-cfg", cfg, "-impl", impl, "-one", "%d:%d" % (fam, idx)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=120 if runner else 40, text=True, errors="replace")
        again, olog = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        again, olog = "hang", ""
    if runner and not ran(again, olog):
        raise NotRun("the emulator ended (%s): %s" % (again, olog[-500:]))
    f = os.path.join(out, "careful.%s.%d.ndjson" % (cfg, 100 + i))
    if again == 0 or (again == 3 and "driver:" in olog):
        cands = sum(1 for _ in open(os.path.join(out, "cand.%s.%d.ndjson" % (cfg, i)), "rb"))
        if cands:
            return  # memory was damaged by calls already recorded
        if rc == "hang" and runner:
            raise NotRun("too slow")
        if rc == "hang":
            raise Broken("a shard of the driver did not finish in time and the call it was in finishes alone")
        # not caused by this call alone: repeat the shard
        cmd = [*runner, driver, "codec", "-prop", prop, "-tier", TIER, "-seed", str(SEED), "-shard", str(i), "-shards", str(shards),
               "-out", out, "-cfg", cfg + "-again", "-impl", impl, "-budget", "100"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=300, text=True, errors="replace")
        if runner and (p.returncode == 0 or not ran(p.returncode, p.stdout)):
            raise NotRun("the program ended once (%s) and not again" % rc)
        if p.returncode == 0:
            raise Broken("the driver ended once (%s) and not again: %s" % (rc, log[-1500:]))
        j = open(os.path.join(out, "journal.%s-again.%d" % (cfg, i)), "rb").read(16)
        fam, idx = struct.unpack("<QQ", j)
        run.fail("process ended in the middle of its calls", {"family": fam, "index": idx, "log": p.stdout[-4000:]})
        return
    if not os.path.exists(f):
        raise Broken("driver ended before its first call: " + olog[-2000:])
    ev = json.loads(open(f).read())
    if again == "hang":
        if "res" in ev:
            ev["res"] = "hang"
        else:
            ev["lres"] = "hang"
    with open(os.path.join(out, "cand.%s.%d.ndjson" % (cfg, 100 + i)), "w") as g:
        g.write(json.dumps(ev) + "\n")


def merge(out, kind):
    dst = os.path.join(out, kind + ".all.ndjson")
    with open(dst, "wb") as w:
        for f in sorted(glob.glob(os.path.join(out, kind + ".*.ndjson"))):
            if f != dst:
                w.write(open(f, "rb").read())
    return dst


def judge(run, out, module="TraceCodec", consts=None, name=None):
    """TLC decides on candidates first, then on the samples."""
    cand, sample = merge(out, "cand"), merge(out, "sample")
    name = name or module
    while os.path.getsize(cand):
        r = run.validate(module, cand, consts, name=name + "-cand")
        if r is None:
            raise Broken("the driver's screening and the specification disagree: %s" % open(cand).read()[:2000])
        run.reject(cand, r[0], r[1])
        # a known finding: go on with the rest
        lines = open(cand).readlines()
        key = run.describe(json.loads(lines[r[0] - 1]))
        del lines[r[0] - 1]
        open(cand, "w").writelines(lines)
    r = run.validate(module, sample, consts, name=name + "-sample")
    if r is not None:
        run.reject(sample, r[0], r[1])
    run.sample_events(sample)


def account(run, sums, label):
    c = run.cov.setdefault("calls_of_real_code", {})
    c[label] = {"calls": sum(s["Calls"] for s in sums), "words": sum(s["Words"] for s in sums),
                "nonempty": sum(s["NonTrivial"] for s in sums), "sampled_for_tlc": sum(s["Samples"] for s in sums),
                "groups_sampled": sum(s["SampleGroups"] for s in sums),
                "guarded_allocations": sum(s["GuardUsed"] for s in sums)}
    fams = {}
    for s in sums:
        for f in s["Fams"]:
            a = fams.setdefault(f["Name"], {"calls": 0, "complete": True})
            a["calls"] += f["Calls"]
            a["complete"] = a["complete"] and f["Done"]
    c[label]["families"] = fams
    run.note("%s: %d calls, %d words" % (label, c[label]["calls"], c[label]["words"]))


def aspect(prop):
    return {"C06": "memory", "C07": "memory", "C10": "memory", "C13": "all", "C16": "refuse"}.get(prop, "value")


FORMAT = {  # property -> laws of SvbFormatMC, and the instance: radix, words, bases, length (quick, thorough)
    "C01": (["Typed", "LengthLaw", "MinimalLaw", "AbsentLaw", "WriteMachine", "Periodic"], ("FewWords", "FewBases", 4, 5)),
    "C02": (["Typed", "RoundTrip", "DeltaLaw"], ("FewWords", "FewBases", 5, 6)),
    "C03": (["Typed", "Trailing", "Junk", "Wide", "ReadMachine", "Periodic"], ("FewWords", "FewBases", 4, 5)),
    "C04": (["Typed", "DeltaLaw", "Periodic"], ("AllWords", "AllWords", 3, 4)),
    "C05": (["Typed", "WriteMachine", "ReadMachine"], ("FewWords", "FewBases", 3, 5)),
    "C08": (["Typed", "BlockMachine"], ("FewWords", "FewBases", 4, 4)),
    "C09": (["Typed", "BlockMachine", "Wide"], ("FewWords", "FewBases", 4, 4)),
    "C13": (["Typed", "WriteMachine", "ReadMachine", "BlockMachine"], ("FewWords", "FewBases", 3, 4)),
    "C15": (["Typed", "Compose"], ("FewWords", "FewBases", 5, 6)),
    "C16": (["Typed", "Cuts", "ReadMachine", "BlockMachine"], ("FewWords", "FewBases", 3, 5)),
}


def design(run, prop):
    """Model checks the laws a property rests on."""
    q = run.quickpick
    if prop in FORMAT:
        invs, (words, bases, nq, nt) = FORMAT[prop]
        run.model("SvbFormatMC", consts={"R": 2 if words == "AllWords" else q(3, 3), "MaxN": q(nq, nt)}, subst={"WordSet": words, "BaseSet": bases},
                  invs=invs, deadlock=False)
    if prop in ("C06", "C07"):
        fn = "read" if prop == "C06" else "write"
        invs = ["InBounds", "InStream", "InResult", "AllWords", "InStep"]
        base = {"MaxCount": q(72, 140), "Fn": '"%s"' % fn, "Sizes": q("{4, 16}", "{4, 9, 16}")}
        run.model("SvbLoops", name="SvbLoops-" + fn, consts={**base, "Cautious": "TRUE"}, invs=invs, deadlock=True)
        if fn == "read":
            run.model("SvbLoops", name="SvbLoops-original", expect="violated", consts={**base, "Cautious": "FALSE"}, invs=invs, deadlock=True)
            run.apalache("SvbLoopsInd", "Inv", "Original", init="Any", length=1, name="SvbLoopsInd-original-step", expect="violated")
        run.induct("SvbLoopsInd", "Reads" if fn == "read" else "Writes", "InitAny", "Any", "Inv", "Rules", name="SvbLoopsInd-" + fn)
    for inv in {"C01": ["Stored"], "C02": ["Stored"], "C03": ["Stored"], "C04": ["Inverse", "Commutes"]}.get(prop, []):
        run.apalache("SvbWordLaws", inv, "CInit")


def codec_check(run, prop, instrumented=True, budget=(90000, 400000), secs=(25, 420), pct=(1000, 100), driver=None):
    design(run, prop)
    d = driver or run.build_driver(instrumented)
    out = run.path("codec")
    big = prop in GIANT and run.pool.submit(giants, run, prop)
    sums = run_shards(run, d, prop, budget=run.quickpick(*budget), secs=run.quickpick(*secs), pct=run.quickpick(*pct))
    account(run, sums, "amd64")
    # the general functions once more where they are not accelerated
    cfg, e = CONFIGS[1 + SEED % 5]
    account(run, run_shards(run, d, prop, cfg=cfg, environ=e, budget=run.quickpick(*budget) // 8, secs=run.quickpick(*secs) / 4,
                            pct=max(20, run.quickpick(*pct) // 5), impl="auto"), cfg)
    judge(run, out, consts={"R": 256, "Aspect": '"%s"' % aspect(prop)})
    if big:
        big.result()


GIANT = {  # general functions, and those a change may affect alone
    "C01": (["WriteAll", "WriteAllScalar"], ["WriteAllFast"]),
    "C03": (["ReadAll", "ReadAllScalar"], ["ReadAllFast"]),
    "C04": (["WriteAllDelta", "ReadAllDelta", "WriteAllDeltaScalar", "ReadAllDeltaScalar"], ["WriteAllDeltaFast", "ReadAllDeltaFast"]),
}


def giants(run, prop):
    """Calls with more bytes than 32-bit numbers count; one after another, for each takes some 5 GB."""
    d = run.build("driver-giant")
    fns, more = GIANT[prop]
    path = run.path("giant.ndjson")
    open(path, "w").close()
    made = []
    for log in run.quickpick([30], [29, 30]):
        for fn in fns + run.quickpick([], more):
            free = 0
            for _ in range(30):
                free = int(re.search(r"MemAvailable:\s+(\d+)", open("/proc/meminfo").read()).group(1)) >> 20
                if free >= 7:
                    break
                time.sleep(2)
            if free < 7:
                run.note("no memory for a giant call of " + fn)
                continue
            f = run.path("giant.%s.%d" % (fn, log))
            try:
                r = sh([d, "giant", "-fn", fn, "-log", str(log), "-seed", str(SEED), "-out", f], timeout=300, env=env(TMPDIR=run.work))
            except subprocess.TimeoutExpired:
                run.note("a giant call of %s did not return in time" % fn)
                continue
            if r.returncode:
                if "driver:" in r.stdout:
                    raise Broken(r.stdout[-2000:])
                if r.returncode < 0 or "out of memory" in r.stdout or "cannot allocate" in r.stdout:
                    run.note("no memory for a giant call of %s (%d)" % (fn, r.returncode))
                    continue
                run.fail("process ended (%d) in a giant call of %s" % (r.returncode, fn), {"log": r.stdout[-3000:]})
            made.append("%s 2^%d words" % (fn, log))
            open(path, "a").write(open(f).read())
    run.cov["giant_calls"] = made
    run.note("giant calls: %s" % ", ".join(made))
    r = run.validate("TracePeriodic", path, {"R": 256}, chunkless=True, workers=1)
    if r is not None:
        run.reject(path, r[0], r[1])


INDEPENDENT = ["adx", "aes", "avx512", "avx512f", "avx512bw", "avx512vl", "avx512dq", "avx512vbmi", "avx512vbmi2", "bmi1", "bmi2", "erms", "fma",
               "pclmulqdq", "rdrand", "rdseed"]
CONFIGS = [  # CPU feature sets a process can start with
    ("full", {}),
    ("noavx2", {"GODEBUG": "cpu.avx2=off"}),
    ("noavx", {"GODEBUG": "cpu.avx=off"}),
    ("neither", {"GODEBUG": "cpu.avx=off,cpu.avx2=off"}),
    ("lean", {"GODEBUG": ",".join("cpu.%s=off" % x for x in INDEPENDENT)}),   # AVX and AVX2, and nothing that is not implied by them
    ("bare", {"GODEBUG": "cpu.all=off"}),
]


# ---- histories and schedules ---------------------------------------------------
def plans(run, num, depth=48):
    """Histories made by TLC from SvbHistories."""
    r = run.tlc("SvbHistories", name="SvbHistories-simulate",
                consts={"R": 256, "Depth": depth, "NBuf": 3, "BufWords": 80, "ByteLen": 96, "MaxOpen": 3},
                subst={"Pick": "PickOne", "Counts": "ManyCounts", "Offs": "ManyOffs", "Styles": "ManyStyles", "Ctrls": "ManyCtrls"},
                invs=["NoOverlap", "Closable", "Emit"], deadlock=False, workers=4,
                extra=["-simulate", "num=%d" % ((num + 3) // 4), "-depth", str(depth + 2), "-seed", str(SEED)])
    if r["rc"] != 0:
        raise Broken("SvbHistories: " + r["out"][-2000:])
    seen = []
    for line in r["out"].splitlines():
        if line.startswith('"PLAN '):
            seen.append(json.loads(line)[5:])
    if len(seen) < num // 2:
        raise Broken("SvbHistories made only %d plans" % len(seen))
    f = run.path("plans.ndjson")
    open(f, "w").write("\n".join(seen) + "\n")
    run.note("%d plans generated by TLC" % len(seen))
    run.cov["plans_generated_by_tlc"] = len(seen)
    return f


LIB = "streamvbyte-simdgo"


def races(run, prefix):
    """Data races of the library in the race detector's logs, one event each."""
    events, others = [], []
    for f in sorted(glob.glob(prefix + "*")):
        for rep in open(f, errors="replace").read().split("=================="):
            if "DATA RACE" not in rep:
                continue
            access = rep.split("Goroutine ")[0]
            (events if LIB in access else others).append(rep.strip())
    if others and not events:
        raise Broken("data race in the driver itself:\n" + others[0])
    return events
