"""Which instruction-set extensions the assembly functions of a binary use."""
import re, subprocess

AVX2_ONLY = re.compile(r"^(vpbroadcast[bwdq]|vbroadcasti128|vpblendd|vperm2i128|vpsllv[dq]|vpsrlv[dq]|vpsrav[dq]|vpermd|vpermq|vpermps|vpermpd"
                       r"|vextracti128|vinserti128|v?p?gather\w+|vgather\w+|vpgather\w+|vpmaskmov[dq])$")
BMI1 = {"andn", "bextr", "blsi", "blsr", "blsmsk", "tzcnt"}
BMI2 = {"pdep", "pext", "shlx", "sarx", "shrx", "rorx", "mulx", "bzhi"}
FLOAT256 = re.compile(r"^v(mov|add|sub|mul|div|sqrt|min|max|and|andn|or|xor|cmp|shuf|unpck[lh]|blend|blendv|perm|permil|broadcast|round|dp|hadd|hsub|"
                      r"addsub|test|zero|lddqu|insertf|extractf|perm2f|mask|ptest|cvt|rcp|rsqrt)\w*(ps|pd|ss|sd|f128|upper|all|dqu|dqa|ntdq|lddqu|dup|test)$")


def extension(mn, ops):
    """The extension one instruction needs ('' for what every amd64 CPU has, or any CPU with AVX)."""
    mn = re.sub(r"^(lock|rep|repz|repnz)\s+", "", mn)
    if "%zmm" in ops or re.search(r"%k[0-7]\b", ops) or re.search(r"%[xy]mm(1[6-9]|2\d|3[01])\b", ops):
        return "avx512f"
    base = mn.rstrip("lqwb") if mn not in ("blsi", "shlx") else mn
    for name, group in (("bmi1", BMI1), ("bmi2", BMI2)):
        if mn in group or base in group or mn[:-1] in group:
            return name
    if mn.startswith(("popcnt",)):
        return "popcnt"
    if mn.startswith("lzcnt"):
        return "lzcnt"
    if mn.startswith(("adcx", "adox")):
        return "adx"
    if re.match(r"^vf(n?m(add|sub)|maddsub|msubadd)", mn):
        return "fma"
    if mn.startswith("vaes"):
        return "vaes" if "%ymm" in ops else "aes"
    if mn.startswith(("vpclmul", "pclmul")):
        return "pclmulqdq"
    if mn.startswith("aes"):
        return "aes"
    if mn.startswith("rdrand"):
        return "rdrand"
    if mn.startswith("rdseed"):
        return "rdseed"
    if mn.startswith("v") and ("mm" in ops or mn.startswith(("vzero", "vldmx", "vstmx"))):
        if AVX2_ONLY.match(mn):
            return "avx2"
        if mn in ("vbroadcastss", "vbroadcastsd") and "(" not in ops:
            return "avx2"
        if "%ymm" in ops and mn.startswith(("vp", "vmpsadbw", "vmovntdqa")) and mn not in ("vperm2f128", "vpermilps", "vpermilpd", "vptest"):
            return "avx2"
        return "avx"
    return ""


def kernels(binary, names):
    """fn -> sorted extensions, for symbols pkg.Name of assembly functions."""
    out = subprocess.run(["objdump", "-d", "--no-show-raw-insn", binary], stdout=subprocess.PIPE, text=True, errors="replace", check=True).stdout
    res = {}
    cur = None
    for line in out.splitlines():
        m = re.match(r"^[0-9a-f]+ <(.*)>:$", line)
        if m:
            cur = None
            for n in names:
                if m.group(1).endswith("/pkg/" + n) or m.group(1).endswith("/pkg/" + n + ".abi0"):
                    # the Go-ABI wrapper of the same name uses no extension
                    cur = res.setdefault(n, set())
            continue
        if cur is not None:
            m = re.match(r"^\s+[0-9a-f]+:\s+(\S+)(?:\s+(.*))?$", line)
            if m:
                mn, ops = m.group(1), m.group(2) or ""
                if mn in ("lock", "rep", "repz", "repnz"):
                    mn, _, ops = ops.partition(" ")
                x = extension(mn, ops)
                if x:
                    cur.add(x)
    return {k: sorted(v) for k, v in res.items()}
