"""Reads Go assembly (the kernels) into programs for spec/SvbKernel.tla."""
import re, struct

GPRS = {"AX", "BX", "CX", "DX", "SI", "DI", "R8", "R9", "R10", "R11", "R12", "R13", "R15"}
BYTE = {"AL": "AX", "BL": "BX", "CL": "CX", "DL": "DX", "SIB": "SI", "DIB": "DI", **{"R%dB" % i: "R%d" % i for i in (8, 9, 10, 11, 12, 13, 15)}}


class Unsupported(Exception):
    pass


def go_frame(sig):
    """The argument frame of a Go function: offset -> what is there; the result's offset."""
    m = re.match(r"func\s+(\w+)\s*\((.*?)\)\s*(?:\(\s*\w*\s*(\w+)\s*,?\s*\)|(\w+))?\s*$", re.sub(r"\s+", " ", sig), re.S)
    if not m:
        raise Unsupported("declaration " + sig)
    params = []
    names = []
    for p in [x.strip() for x in m.group(2).split(",") if x.strip()]:
        w = p.split(None, 1)
        names.append(w[0])
        if len(w) == 2:
            params += [(n, w[1]) for n in names]
            names = []
    off, frame = 0, []
    for n, t in params:
        t = t.replace(" ", "")
        if t in ("[]uint32", "[]byte", "[]uint8"):
            off = (off + 7) & ~7
            role = "in" if n.lower().startswith("in") else "out" if n.lower().startswith("out") else None
            if role is None:
                raise Unsupported("argument " + n)
            ln = 8 if t == "[]uint32" else 32
            frame += [(off, 8, ["p", role, 0]), (off + 8, 8, ["n", ln]), (off + 16, 8, ["n", ln])]
            off += 24
        elif t.startswith("*[256]"):
            off = (off + 7) & ~7
            frame.append((off, 8, ["p", "shuf" if "[16]" in t else "len", 0]))
            off += 8
        elif t == "uint32":
            off = (off + 3) & ~3
            frame.append((off, 4, ["prev"]))
            off += 4
        elif t == "uint16":
            off = (off + 1) & ~1
            frame.append((off, 2, ["ctrl"]))
            off += 2
        else:
            raise Unsupported("argument type " + t)
    off = (off + 7) & ~7
    return [{"o": o, "w": w, "v": v} for o, w, v in frame], off


def declarations(go):
    """Body-less functions of Go source."""
    src = re.sub(r"//[^\n]*", "", go)
    out = {}
    for m in re.finditer(r"(?m)^func\s+(\w+)\s*\(", src):
        i, depth = m.end(), 1
        while depth:
            depth += {"(": 1, ")": -1}.get(src[i], 0)
            i += 1
        j = src.find("\n", i)
        rest = src[i:j if j >= 0 else len(src)]
        if "{" not in rest:
            out[m.group(1)] = (src[m.start():i] + rest).strip()
    return out


def num(s):
    return int(s, 0)


def operand(s):
    s = s.strip()
    if s in GPRS:
        return {"t": "r", "n": s}
    if s in BYTE:
        return {"t": "r", "n": BYTE[s]}
    m = re.match(r"X(\d+)$", s)
    if m and int(m.group(1)) < 16:
        return {"t": "x", "n": int(m.group(1))}
    m = re.match(r"\$(-?\w+)$", s)
    if m:
        v = num(m.group(1))
        if not 0 <= v < 1 << 31:
            raise Unsupported("immediate " + s)
        return {"t": "i", "v": v}
    m = re.match(r"(\w+)\+(\d+)\(FP\)$", s)
    if m:
        return {"t": "f", "o": int(m.group(2))}
    m = re.match(r"(\w+)<>\+?(\d+)?\(SB\)$", s)
    if m:
        return {"t": "g", "n": m.group(1), "o": int(m.group(2) or 0)}
    m = re.match(r"(-?\w+)?\((\w+)\)(?:\((\w+)\*(\d)\))?$", s)
    if m and m.group(2) in GPRS and (not m.group(3) or m.group(3) in GPRS):
        return {"t": "m", "o": num(m.group(1) or "0"), "b": m.group(2), "x": m.group(3) or "", "s": int(m.group(4) or 1)}
    raise Unsupported("operand " + s)


NONE = {"t": "none"}
MOV = {"MOVQ": 8, "MOVL": 4, "MOVBQZX": 1, "MOVBLZX": 1, "MOVWQZX": 2, "MOVWLZX": 2, "VMOVD": 4}
ALU = {"ADDQ": "add", "SUBQ": "sub", "SHLQ": "shl", "SHRQ": "shr", "ANDQ": "and", "ORQ": "or", "ANDL": "and", "XORQ": "xor"}
VMOV = {"VLDDQU", "VMOVDQU", "VMOVDQA", "VMOVUPS", "VMOVAPS"}
V2 = {"VPMINUB", "VPMINSW", "VPADDUSW", "VPACKUSWB", "VPADDD", "VPSUBD", "VPSHUFB", "VPXOR", "VPAND", "VPOR"}


def instruction(op, a):
    def ins(o, w, s, d, f="", n=0):
        return {"o": o, "f": f, "w": w, "n": n, "s": s, "d": d}
    if op == "RET":
        return ins("ret", 0, [], NONE)
    if op in ("NOP", "VZEROUPPER"):
        return ins("nop", 0, [], NONE)
    if op in ("MOVW", "MOVB"):
        if a[1]["t"] not in ("f", "m"):
            raise Unsupported(op + " into a register")
        return ins("mov", 2 if op == "MOVW" else 1, [a[0]], a[1])
    if op in MOV:
        if a[1]["t"] == "x":
            return ins("vec", MOV[op], [a[0]], a[1], f="LOW4") if MOV[op] == 4 else _no(op)
        if a[0]["t"] == "x" and a[1]["t"] == "r":
            raise Unsupported(op + " out of a vector register")
        return ins("mov", MOV[op], [a[0]], a[1])
    if op == "LEAQ":
        return ins("lea", 8, [a[0]], a[1])
    if op in ("INCQ",):
        return ins("alu", 8, [{"t": "i", "v": 1}, a[0]], a[0], f="add")
    if op in ALU:
        if op in ("XORQ",) and a[0] == a[1]:
            return ins("mov", 8, [{"t": "i", "v": 0}], a[1])
        if op in ("SHLQ", "SHRQ") and a[0]["t"] != "i":
            raise Unsupported(op)
        if a[1]["t"] != "r":
            raise Unsupported(op + " on memory")
        return ins("alu", 4 if op == "ANDL" else 8, [a[0], a[1]], a[1], f=ALU[op])
    if op in VMOV:
        if a[1]["t"] == "x":
            return ins("vec", 16, [a[0]], a[1], f="MOVE")
        return ins("mov", 16, [a[0]], a[1])
    if op in V2:
        return ins("vec", 16, [a[0], a[1]], a[2], f=op)
    if op == "VPALIGNR":
        return ins("vec", 16, [a[1], a[2]], a[3], f=op, n=a[0]["v"])
    if op in ("VPSLLDQ", "VPSRLDQ", "VPSHUFD"):
        return ins("vec", 16, [a[1]], a[2], f=op, n=a[0]["v"])
    if op in ("VBROADCASTSS", "VPBROADCASTD"):
        return ins("vec", 4, [a[0]], a[1], f="DUP4")
    if op == "VPBROADCASTW":
        return ins("vec", 2, [a[0]], a[1], f="DUP2")
    if op == "VPBROADCASTB":
        return ins("vec", 1, [a[0]], a[1], f="DUP1")
    if op == "VPMOVMSKB":
        return ins("mask", 16, [a[0]], a[1])
    raise Unsupported("instruction " + op)


def _no(op):
    raise Unsupported(op)


def programs(asm, go):
    """name -> program (or the reason why there is none), from a .s file and the Go files beside it."""
    decls = declarations(go)
    globs, text, order = {}, {}, None
    asm = re.sub(r"/\*.*?\*/", "", asm, flags=re.S)
    for line in asm.splitlines():
        line = line.split("//")[0].strip()
        if not line or line.startswith("#"):
            continue
        m = re.match(r"TEXT\s+\u00b7(\w+)\(SB\)", line)
        if m:
            order = text.setdefault(m.group(1), [])
            continue
        m = re.match(r"DATA\s+(\w+)<>\+(\d+)\(SB\)/(\d+),\s*\$(.*)$", line)
        if m:
            n, o, w, v = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)
            b = globs.setdefault(n, bytearray())
            if v.startswith('"'):
                v = v[1:-1].encode().decode("unicode_escape").encode("latin1")
            else:
                v = (num(v) & ((1 << 8 * w) - 1)).to_bytes(w, "little")
            b.extend(b"\0" * (o + w - len(b)))
            b[o:o + w] = v
            continue
        if line.startswith("GLOBL") or order is None:
            continue
        order.append(line)
    res = {}
    for name, lines in text.items():
        try:
            if name not in decls:
                raise Unsupported("no declaration")
            frame, ret = go_frame(decls[name])
            code = []
            for x in lines:
                m = re.match(r"([A-Z0-9]+)\s*(.*)$", x)
                if not m:
                    raise Unsupported(x)
                ops = [operand(o) for o in re.split(r",\s*", m.group(2))] if m.group(2) else []
                code.append(instruction(m.group(1), ops))
            kinds = [f["v"][0] for f in frame]
            res[name] = {"name": name, "kind": "dec" if "ctrl" in kinds else "enc", "delta": "prev" in kinds, "code": code, "frame": frame,
                         "ret": ret if "ctrl" not in kinds else -1, "globals": {n: list(b) for n, b in globs.items()} or {"none": []}}
        except (Unsupported, IndexError, KeyError, ValueError) as e:
            res[name] = str(e) or repr(e)
    return res
