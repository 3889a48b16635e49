#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
W = ["pkg/stream/writer/writer.go", "pkg/stream/writer/writer_amd64.go"]
R = ["pkg/stream/reader/reader.go", "pkg/stream/reader/reader_amd64.go"]
E = ["pkg/encode/encode.go", "pkg/encode/encode_amd64.go", "pkg/encode/encode_amd64.s"]
D = ["pkg/decode/decode.go", "pkg/decode/decode_amd64.go", "pkg/decode/decode_amd64.s"]
T = ["pkg/shared/tables.go", "pkg/shared/gen.go"]

prop("C01", "Stream writers emit exactly the Stream VByte format",
 "For every sequence of n uint32 values every plain stream writer (general, accelerated, scalar) returns exactly ceil(n/4) control bytes followed by the data bytes of the n values: each value in its minimal 1-4 little-endian bytes (0 takes one), control byte g holding the four 2-bit (length-1) codes of values 4g..4g+3 lowest first, codes of absent values being 0, and nothing after the last data byte. The empty sequence gives an empty stream.",
 ["inputs"], "all input sequences of any length and content, all plain writer entry points",
 "The tests compare writers with each other or with the readers on a few random sequences, so a shared deviation from the format, a rare count remainder (n mod 32), boundary value or lane pattern is not settled by them; only one 8-value block is ever compared with literal bytes.",
 W + E + T, [("scalar 16/4/tail loops", "WriteAllScalar"), ("accelerated 32/8/tail loops", "WriteAllFast"), ("control byte computation", "Put8uint32FastAsm, Put4uint32Scalar, PutUint32Scalar, encodeOne")],
 [dict(name="ctrlPos/dataPos/encoded", meaning="write cursors into the control and the data region", where="writer loops")],
 ["return value of WriteAll, WriteAllFast, WriteAllScalar"])

prop("C02", "Write then read restores every sequence",
 "For every sequence of uint32 values, encoding it with any stream writer and decoding the returned stream with any stream reader of the same kind (plain, or differential with the same base) and the same count restores exactly that sequence. This holds across implementations: a stream written by one implementation is read back by every other.",
 ["inputs", "configurations"], "all sequences, all bases, every (writer, reader) pair of matching kind",
 "Tests round-trip 6 random sequences per pair with base 0 and sorted data in the differential case, at mostly large counts; small remainders, unsorted data, extreme values and cross pairs are sampled rarely or never.",
 W + R + E + D, [("matching loop structure of writers and readers", "WriteAll*/ReadAll*"), ("length and shuffle tables", "pkg/shared/tables.go")],
 None, ["out[0:count] after ReadAll*"])

prop("C03", "Readers decode every well-formed stream",
 "For every count and every stream that is long enough for what its control bytes announce, every plain stream reader writes to out[i] the little-endian value of the bytes the i-th 2-bit code selects, even when a value is stored in more bytes than needed, when codes of absent values in the last control byte are non-zero, or when further bytes follow the encoded data.",
 ["inputs"], "all (count, control bytes, data bytes, trailing bytes), all plain reader entry points",
 "Tests only ever decode streams produced by this library's own writers, which are minimal, zero-padded and exactly sized.",
 R + D + T, [("control-driven position computation", "ReadAllScalar, ReadAllFast"), ("decode shuffle", "Get8uint32FastAsm"), ("tail decode with count", "GetUint32Scalar")],
 None, ["out[0:count] after ReadAll, ReadAllFast, ReadAllScalar"])

prop("C04", "Differential coding is exact modulo 2^32 for any base",
 "For every sequence (sorted or not) and every base, each differential writer returns exactly the plain encoding of the differences v[0]-base, v[1]-v[0], ... taken modulo 2^32, and each differential reader given any well-formed stream and base writes the running sums base+d[0], base+d[0]+d[1], ... modulo 2^32 of the values that stream encodes.",
 ["inputs"], "all sequences, all bases, all well-formed difference streams, all differential entry points",
 "Every existing test uses base 0 and sorted input, so wrap-around, non-zero bases and unsorted data are never exercised, and the carry of the base across unrolled blocks is only seen with small differences.",
 W + R + E + D, [("base hand-over between blocks", "WriteAllDelta*/ReadAllDelta* loops (prev = ...)"), ("SIMD prefix sum / difference", "Get8uint32DeltaFastAsm, Put8uint32DeltaFastAsm")],
 [dict(name="prev", meaning="last original value before the current block", where="delta loops")],
 ["results of WriteAllDelta*, ReadAllDelta*"])

prop("C05", "The selected implementation is unobservable in results",
 "For every input and every set of CPU features the process starts with, the general functions (stream and 8-value block, plain and differential, encoding and decoding) return exactly the same control values, encoded bytes and decoded numbers as the scalar and the accelerated functions do on that input.",
 ["inputs", "configurations"], "all inputs, all CPU feature sets (AVX and AVX2 present or not)",
 "Tests compare the accelerated with the scalar functions on a handful of random inputs, never call the general functions at all, and run with the one feature set of the test machine.",
 W + R + E + D, [("runtime dispatch", "ReadAll/WriteAll, init() in encode.go and decode.go, GetMode")],
 [dict(name="getImpl/putImpl", meaning="implementation chosen at package init", where="encode.go, decode.go")],
 ["results of the general functions under GODEBUG=cpu.avx=off / cpu.avx2=off"])

prop("C06", "Stream readers stay inside the stream and the first count outputs",
 "For every count and every well-formed stream, including one that ends exactly at the end of accessible memory, no stream reader (plain or differential) accesses memory outside the stream slice, modifies the stream, or modifies any output element at index count or beyond or any memory around the output. Every output element below count is written.",
 ["inputs"], "all counts, streams and placements of the slices in memory, all stream reader entry points",
 "The accelerated readers use unchecked 16-byte loads and stores; the tests decode from ordinary heap slices with slack behind them, where an out-of-range access is invisible.",
 R + ["pkg/decode/decode_amd64.s"], [("stopping the bulk loops early enough", "lowest32 and the pair loop bound in ReadAllFast/ReadAllDeltaFast"), ("bounds-checked tail", "GetUint32Scalar, GetUint32DeltaScalar")],
 [dict(name="dataPos", meaning="position of the next data byte", where="reader loops")],
 ["page faults on guard pages next to the slices", "memory around out and stream after the call"])

prop("C07", "Stream writers leave their input alone and own their result",
 "For every input, no stream writer accesses memory outside the input slice or outside the buffer it allocates for the result, and none modifies the input. The returned slice is fresh: it shares no memory with the input or with any earlier result, so later calls or later changes to the input never change an already returned stream.",
 ["inputs", "histories"], "all inputs, placements and sequences of calls and caller-side mutations",
 "The accelerated writers store 16 bytes at a time, unchecked; tests look at each returned slice once, immediately, and never at the memory around the buffers or at an older result.",
 W + E, [("worst-case sized allocation", "stream = make([]byte, ctrlLen+4*count)"), ("last groups left to the checked tail loop", "ctrlPos < ctrlLen-2")],
 None, ["page faults on guard pages around the input and the (instrumented) result buffer", "earlier results after later calls"])

prop("C08", "Block encoders produce the exact control value and bytes",
 "For every block of values (8, 4, or up to 4 with any count argument: counts above 4 act as 4 and count 0 encodes nothing and returns 0) and every base, each block encoder returns the control value made of the 2-bit (length-1) codes, lowest value first, and writes the values' - or, if differential, the differences' modulo 2^32 - minimal little-endian bytes contiguously from the start of the output.",
 ["inputs"], "all value blocks, counts and bases; all Put8/Put4/Put functions, scalar, accelerated and general",
 "One literal 8-value block is tested; the rest are self-comparisons on one random block per run with base 0 and sorted values.",
 E + T, [("length by leading zeros", "encodeOne"), ("control by min/pack/saturating add/movemask", "encode_amd64.s"), ("compression shuffle", "EncodeShuffleTable")],
 None, ["returned control, output bytes"])

prop("C09", "Block decoders invert the block encoding for every control value",
 "For every control value and every sufficiently long input, each block decoder writes exactly the 8, 4, or min(count,4) little-endian values the 2-bit codes select (running sums from the base modulo 2^32 if differential), and the counted decoders return exactly the number of input bytes those values occupy, 0 for count 0.",
 ["inputs"], "all control values, data bytes, counts and bases; all Get8/Get4/Get functions, scalar, accelerated and general",
 "One random block per run is tested with encoder-made input and base 0; the consumed-byte count is never asserted.",
 D + T, [("per-control length tables", "PerNumLenTable, PerControlLenTable"), ("expansion shuffle", "DecodeShuffleTable"), ("prefix sum", "undoDelta in decode_amd64.s")],
 None, ["decoded numbers, returned consumed length"])

prop("C10", "Block functions touch only the block they are given",
 "For every block: the 8-value encoders read only their 8 input values and write only the first 32 output bytes, the 8-value decoders read only the first 32 input bytes and write only 8 output values, and every scalar block function reads and writes exactly the bytes and values the control value and count denote, so it works on exactly sized slices. Inputs are never modified.",
 ["inputs"], "all blocks, control values, counts and slice placements (including directly next to inaccessible memory)",
 "Tests use buffers of the worst-case size in the middle of the heap and never look at neighbouring memory, where the unchecked 16-byte loads and stores of the accelerated code would show.",
 E + D, [("second store/load offset by the first control byte's length", "encode_amd64.s, decode_amd64.s"), ("size-driven slicing", "Put4uint32Scalar, Get4uint32Scalar, encodeOne, decodeOne")],
 None, ["page faults on guard pages; bytes around the slices after the call"])

prop("C11", "Results depend only on the arguments, in every history and schedule",
 "In every sequence of calls, with caller-side changes to the caller's own buffers in between, and in every interleaving of concurrent calls whose outputs do not overlap (inputs may be shared), each call's result is the one its arguments determine, as if it were the only call ever made. There are no data races between such calls.",
 ["schedules", "histories"], "all call histories and all schedules of concurrent calls on disjoint outputs",
 "Every test makes single, sequential, independent calls with fresh buffers; reuse of buffers, interleaved calls of different kinds and concurrency are never exercised.",
 W + R + E + D + T, [("no mutable package state", "package-level variables are tables and function pointers written only at init")],
 [dict(name="tables", meaning="shared read-only lookup tables", where="pkg/shared/tables.go")],
 ["results of concurrent and interleaved calls", "race detector"])

prop("C12", "Accelerated code runs only where the CPU supports it, as reported",
 "For every combination of CPU features, the general functions execute accelerated code only if the CPU has every instruction-set extension that code uses, and execute it when AVX and AVX2 are both available. Each package's reported mode says truthfully whether its general functions are accelerated, at every moment, for blocks and streams alike.",
 ["configurations"], "all combinations of AVX/AVX2 availability, all general functions",
 "The tests run with the single feature set of the machine and skip, rather than check, the other configurations.",
 ["pkg/encode/encode_amd64.go", "pkg/decode/decode_amd64.go", "pkg/encode/encode.go", "pkg/decode/decode.go", "pkg/stream/reader/reader.go", "pkg/stream/writer/writer.go", "pkg/encode/encode_amd64.s", "pkg/decode/decode_amd64.s"],
 [("feature test", "encode.GetMode (AVX and AVX2), decode.GetMode (AVX)"), ("dispatch", "init() in encode.go/decode.go; ReadAll*/WriteAll*")],
 [dict(name="mode", meaning="Normal or Fast", where="shared.PerformanceMode")],
 ["GetMode() and execution counters in the assembly entry points, per GODEBUG=cpu.* configuration"], "none in /repo: entry counters are added to a build-time overlay copy of the assembly")

prop("C13", "Every platform builds and behaves the same",
 "The library compiles for every Go platform, not only amd64, with the same exported stream and block functions, and on a platform without accelerated code the general and scalar functions give the same results as on amd64 for every input (also where int is 32 bits wide), in normal mode and never by entering an accelerated stub.",
 ["configurations", "inputs"], "all target architectures; all inputs on the portable build",
 "The test suite is only ever built for the host (amd64), so the fallback files are not even compiled by it.",
 ["pkg/decode/decode_base.go", "pkg/encode/encode_base.go", "pkg/stream/reader/reader_base.go", "pkg/stream/writer/writer_base.go", "pkg/stream/reader/reader.go", "pkg/stream/writer/writer.go"],
 [("build-tagged fallback stubs", "*_base.go"), ("portable scalar code", "decode.go, encode.go, reader.go, writer.go")],
 None, ["go build for each GOARCH", "results of a 32-bit x86 build executed on this machine", "results of a big-endian build executed in an emulator"])

prop("C14", "Lookup tables, size helpers and generators agree with the format",
 "For every control byte the shared tables give the four value lengths, their sum, and the byte permutations that pack and unpack those lengths, and the size helpers return the number of data bytes one or two control bytes announce. Running the repository's generators reproduces tables with those same entries and assembly kernels with the same behaviour as the ones shipped.",
 ["inputs", "programs"], "all 256 control bytes, all 65536 control pairs, all table entries; all generator outputs",
 "No test looks at the tables or helpers directly, nor runs the generators; the CI job that regenerates compares text, not meaning.",
 T + ["pkg/shared/main/gentables.go", "pkg/shared/asm.go", "pkg/encode/main/asm.go", "pkg/decode/main/asm.go"], [("table generation", "gentables.go"), ("kernel generation", "encode/main/asm.go, decode/main/asm.go"), ("size helpers", "ControlByteToSize, ControlByteToSizeTwo")],
 None, ["values of the exported tables", "results of size helpers", "output of go run ./main/... into a scratch directory"])

prop("C15", "Blocks and segments compose into streams",
 "For every sequence, encoding it block by block with the block functions (chaining the base through the last value of the previous block in the differential case) and placing the control bytes before the data gives exactly the stream the stream writer returns, and decoding any such stream block by block gives exactly what the stream reader writes. Splitting a sequence at multiples of 4 into separately written segments, each with the previous segment's last value as base, yields the same control and data bytes segment by segment.",
 ["inputs", "histories"], "all sequences, all ways to split them into blocks of 8, 4 and a tail, and into segments; all bases",
 "No test combines block and stream functions, or continues a differential stream from a non-zero base.",
 W + R + E + D, [("base parameter", "prev of the delta functions"), ("control/size bookkeeping by the caller", "shared.ControlByteToSize*")],
 None, ["results of mixed block/stream call sequences"])

prop("C16", "Truncated input never yields a result",
 "Given a stream with fewer bytes than the count and its control bytes require (in the control region or in the data), no stream reader returns normally: it panics. Likewise every scalar block function panics when its input holds fewer bytes or values than the block denotes or its output is too short for the result; in no case are memory locations outside the given slices modified.",
 ["inputs"], "all streams cut at any position, all counts; all too-short slices for the scalar block functions, also when spare capacity follows the slice",
 "No test passes a short slice; the documented promise to panic is never exercised, and the accelerated readers have no bounds checks in their kernels.",
 R + ["pkg/decode/decode.go", "pkg/encode/encode.go"], [("Go bounds checks on re-slicing", "stream[dataPos:], in[len0:], out[3]"), ("checked scalar decoding of the last groups", "tail loops of ReadAll*Fast")],
 None, ["panic or normal return of each call; memory around the slices"])

prop("C17", "The varint baseline codec and delta helper are exact",
 "For every sequence of uint32 values, the varint encoder writes the minimal 7-bits-per-byte encoding of each value (of each difference modulo 2^32 in the differential variant) and returns the number of bytes written, and the matching decoder restores the values from exactly those bytes and returns the number of bytes consumed. The delta helper yields first value and successive differences modulo 2^32, and the sort helper yields the ascending permutation of its input.",
 ["inputs"], "all sequences and bases",
 "One random sequence of 8 values, sorted with base 0 in the differential case.",
 ["pkg/util/varint.go", "pkg/util/util.go"], [("uvarint per value", "PutVarint, GetVarint, PutDeltaVarint, GetDeltaVarint"), ("differences", "Delta, SortUint32")],
 None, ["bytes, values and lengths returned"])

prop("C18", "The benchmark tool replaces only the benchmark block of the README",
 "For every benchmark output and every README containing the benchmark section, the tool's result is the README with exactly the body of that section's text block replaced by the recognised input lines (environment lines, a rule after each cpu line, benchmark lines without their prefix, a blank line between packages), everything before and after kept byte for byte. It prints the result, or writes it to the README only when asked to.",
 ["inputs"], "all benchmark logs and all READMEs with the section, wherever it is and whatever code blocks surround it",
 "The tool has no tests.",
 ["tools/parse_and_write_bench.go"], [("line filter state machine", "main loop over scanner lines"), ("splice at sentinels", "bytes.Index of start and end sentinels")],
 [dict(name="hasBench", meaning="a benchmark line has been seen", where="main")],
 ["stdout and README file after a run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
