"""Runs of the benchmark tool on generated READMEs and benchmark outputs."""
import random
from vlib import *

START, FENCE = b"## Benchmarks\n\n```text\n", b"```\n"
FUNCS = ["MemCopy8Uint32", "Get8uint32Fast", "ReadAllFast/Count_1e1", "WriteAllDelta/Count_1e6", "Foo/Benchmark_bar", "Put8uint32Scalar",
         "x", "Goos", "Benchmark", "Pkg/cpu:_2", "A$1_%d", "Sort#01"]
NOISE = ["PASS", "ok  \tgithub.com/theMPatel/streamvbyte-simdgo/pkg\t12.345s", "?   \tgithub.com/x/y\t[no test files]", "",
         "--- BENCH: BenchmarkFoo-12", "    foo_test.go:10: Benchmark note", " goos: indented", "\tBenchmarkIndented 1 2 ns/op", "FAIL",
         "testing: warning: no tests to run", "coverage: 10.0% of statements", "## Benchmarks", "```", "```text", "Using cpu: 3",
         "# github.com/x/y", "2026/01/01 log $0 %s", "benchmarkLower 1", "CPU: big", "exit status 1", "--", "-"]
CPUS = ["Intel(R) Core(TM) i7-8700B CPU @ 3.20GHz", "AMD EPYC 7B13", "x", "Apple M1 $2 \\1 100%", "Benchmark-CPU", ""]


def bench_line(r, long=False):
    name = "Benchmark" + r.choice(FUNCS) + r.choice(["", "-12", "-8", "-1"])
    tail = r.choice(["\t%d\t%8.3f ns/op" % (r.randrange(1, 10**9), r.random() * 1000),
                     "    \t%d\t         2.608 ns/op\t12269.03 MB/s" % r.randrange(10**9),
                     "\t 1\t 5 ns/op\t 0 B/op\t 0 allocs/op  ", "", " ", "\t--- FAIL", "\t1\t%s" % ("extra/op " * (r.choice([300, 460, 1000]) if long else 3))])
    return name + tail


def bench_input(r, size):
    lines = []
    if size == 1:    # next to nothing: the new block is shorter than most old ones
        return bench_line(r).encode() + r.choice([b"", b"\n"])
    for _ in range(1 if size < 8 else r.randrange(1, 5)):
        head = []
        if r.random() < 0.9:
            head.append("goos: " + r.choice(["linux", "darwin", "windows "]))
        if r.random() < 0.9:
            head.append("goarch: " + r.choice(["amd64", "arm64"]))
        if r.random() < 0.95:
            head.append("pkg: github.com/theMPatel/streamvbyte-simdgo/pkg" + r.choice(["", "/decode", "/encode", "/stream/writer"]))
        if r.random() < 0.8:
            head.append("cpu: " + r.choice(CPUS))
        if r.random() < 0.2:
            head.insert(0, r.choice(NOISE))
        body = []
        for _ in range(r.randrange(1, max(2, size))):
            if r.random() < 0.25:
                body.append(r.choice(NOISE))
            else:
                body.append(bench_line(r, r.random() < 0.02))
        if r.random() < 0.3:  # a package without benchmarks
            body = [b for b in body if not b.startswith("Benchmark")]
        elif not any(b.startswith("Benchmark") for b in body):
            body.append(bench_line(r))
        tail = r.sample(NOISE[:3], r.randrange(3)) if r.random() < 0.8 else []
        lines += head + body + tail
    if not any(x.startswith(("goos", "goarch", "pkg", "cpu", "Benchmark")) for x in lines):
        lines.append(bench_line(r))
    data = "\n".join(lines)
    if r.random() < 0.85:
        data += "\n"
    return data.encode()


def prose(r, n):
    """Text without the section's opening."""
    parts = [b"# Title\n", b"\n", b"words and words\n", b"```go\nx := 1\n```\n", b"```text\nother block\n```\n", b"`inline`\n",
             b"## Other\n\n", b"see ## Benchmarks below\n", b"## Benchmarks of others\n", b"```\nplain\n```\n", b"caf\xc3\xa9 \xe2\x9c\x93\n",
             b"crlf line\r\n", b"\xff\xfe raw\n", b"tab\there  \n", b"no newline", b"<br/>\n", b"### Benchmarks\n", b"%d $1 \\1\n", b"goos: none\n",
             b"BenchmarkInText 1\n", b"--\n", b"````\n", b"~~~\n", b"\x00\n", b"## Benchmarks\n\n```go\nf()\n```\n", b"## Benchmarks\n```text\nz\n```\n"]
    while True:
        t = b"".join(r.choice(parts) for _ in range(r.randrange(n)))
        if START not in t + START[:-1]:
            return t


def old_body(r, n):
    k = r.randrange(5)
    if k == 0:
        return b""
    if k == 1:
        return b"goos: darwin\ncpu: X\n--\nFoo-12   1   2 ns/op\n"
    if k == 2:
        return b"\n" * r.randrange(1, 5)
    return b"".join(r.choice([b"Old-12 \t 100 \t 2 ns/op\n", b"goos: a\n", b"\n", b"--\n", b"## Benchmarks\n", b"``\n", b"`x`\n", b"```x\n"])
                    for _ in range(r.randrange(1, n)))


def readme(r, n, big=False):
    before, after = prose(r, n), prose(r, n)
    if big:
        pad = b"".join(b"line %d of much prose, all of it to be kept\n" % i for i in range(900 if r.random() < 0.7 else 3200))
        if r.random() < 0.5:
            after = after + pad
        else:
            before = pad + before
    if r.random() < 0.15:
        before = b""
    if r.random() < 0.15:
        after = b""
    if r.random() < 0.7 and before and not before.endswith(b"\n"):
        before += b"\n"
    if r.random() < 0.3 and not after.startswith(b"\n"):
        after = b"\n" + after
    if r.random() < 0.15:  # a second section of that kind
        after += START + old_body(r, n) + FENCE + prose(r, n)
    t = before + START + old_body(r, 200 if big else r.choice([n, 4 * n, 12 * n])) + FENCE + after
    return t if t.find(START) == len(before) else readme(r, n, big)


def build_tool(run):
    e = env(CGO_ENABLED="0", GOFLAGS="-mod=readonly")
    out = run.path("benchtool")
    r = sh(["go", "build", "-o", out, "./tools"], cwd=REPO, env=e)
    if r.returncode:
        r = sh(["go", "build", "-o", out, "tools/parse_and_write_bench.go"], cwd=REPO, env=e)
    if r.returncode:
        raise Broken("the tool does not build:\n" + r.stdout)
    return out


def bench_runs(run, n, big):
    """Runs the tool: print, write, and write again; returns the event file."""
    tool = build_tool(run)

    def one(i):
        r = random.Random(SEED * 1000003 + i)
        isbig = i < big
        rd = readme(r, 8, isbig)
        size = 600 if i < big // 2 else r.choice([1, 1, 2, 3, 6, 20])
        data = bench_input(r, size)
        home = run.path("home%d" % i)
        os.mkdir(home)
        f = os.path.join(home, "README.md")
        open(f, "wb").write(rd)
        # the tool may be started anywhere; another README there is not its concern
        away = run.path("away%d" % i)
        os.mkdir(away)
        other = readme(r, 6)
        decoy = os.path.join(away, "README.md")
        open(decoy, "wb").write(other)
        evs = []
        for mode in ("print", "write", "write"):
            before = open(f, "rb").read()
            cmd = [tool] + r.choice([["-w"], ["-w"], ["--w"], ["-w=true"]] if mode == "write" else [[], [], ["-w=false"]])
            cwd, e = r.choice([(home, env(SBYTE_HOME=home, HOME=away)), (away, env(SBYTE_HOME=home, HOME=away)),
                               (away, env(SBYTE_HOME="../home%d/" % i, HOME=home)), (home, env(SBYTE_HOME="", HOME=away))])
            try:
                p = subprocess.run(cmd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=cwd, env=e)
                rc, so = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, so = 99, b""
            after = open(f, "rb").read() if os.path.exists(f) else b""
            text = data.split(b"\n")
            if text and text[-1] == b"":
                text.pop()
            evs.append({"what": "run %d" % i, "mode": mode, "lines": [list(x) for x in text], "readme": list(before), "rc": rc,
                        "stdout": list(so), "after": list(after), "args": cmd[1:], "decoy": open(decoy, "rb").read() != other})
            if rc != 0 or FENCE not in after or START not in after:
                break
        extra = sorted(os.listdir(home))
        shutil.rmtree(home)
        shutil.rmtree(away)
        return evs, extra

    path = run.path("bench.ndjson")
    runs = chars = 0
    with open(path, "w") as g, cf.ThreadPoolExecutor(CORES) as ex:
        for evs, extra in ex.map(one, range(n)):
            for e in evs:
                runs += 1
                chars += len(e["readme"]) + sum(map(len, e["lines"]))
                g.write(json.dumps(e, separators=(",", ":")) + "\n")
    run.cov["runs_of_the_tool"] = {"runs": runs, "bytes": chars, "readmes": n, "large": big}
    run.note("%s" % run.cov["runs_of_the_tool"])
    return path
