------------------------------- MODULE SvbKernel ------------------------------
(* The assembly functions, instruction by instruction.                         *)
(*                                                                             *)
(* A program is what the repository's .s file says, read by bin/asm.py; a job  *)
(* is a program with its inputs.  Inputs are symbolic where that is possible,  *)
(* so that one job stands for all data:                                        *)
(*   decoding  every input byte and the base are symbols; the control value is *)
(*             concrete.  A job decides all inputs with this control value.    *)
(*   encoding  the input words are symbols, of which is only known which bytes *)
(*             (of the stored words: the values or their differences) are 0.   *)
(*             A job decides all inputs with this pattern of zero bytes.       *)
(*   replay    everything is concrete, and the result of the real function is  *)
(*             part of the job: all 32 bytes of its output, also those no      *)
(*             property speaks about.  This is what ties the semantics of the  *)
(*             instructions given here to the machine.                         *)
(*                                                                             *)
(* Bytes    <<"c", n>>      known                                              *)
(*          <<"a", r, i>>   byte i of input region r                           *)
(*          <<"l", L, j>>   byte j (from 0) of the sum L                       *)
(*          <<"u">>         undefined, or something no result may depend on    *)
(* Sums     [k |-> constant word, m |-> coefficients of words of symbols]:     *)
(*          32-bit arithmetic modulo 2^32 in a normal form                     *)
(* GPRs     <<"n", i>>  <<"p", region, offset>>  <<"b", bytes>>  <<"u">>       *)
EXTENDS SvbFormat, TLC, Json, Bitwise, FiniteSets

CONSTANTS ProgFile, JobFile, Chunks

Progs == ndJsonDeserialize(ProgFile)   \* [name, kind, delta, code, frame, ret, globals]
Jobs  == ndJsonDeserialize(JobFile)    \* [p, mode, ctrl, zero, in, prev, out, ret]
Tables == Progs[1].tables              \* [shuf, len]: the real tables the function is given
NJ == Len(Jobs)

VARIABLES l, end, pc, g, x, out, ret, bad
vars == <<l, end, pc, g, x, out, ret, bad>>

(* --- bytes and sums --------------------------------------------------------- *)
C(n) == <<"c", n>>
U == <<"u">>
Known(b) == b[1] = "c"
AllKnown(bs) == \A i \in DOMAIN bs : bs[i][1] = "c"

NoTerms == [a \in {} |-> 0]
SumOf(bs) ==    \* the sum a word of four bytes stands for
  IF AllKnown(bs) THEN [k |-> <<bs[1][2], bs[2][2], bs[3][2], bs[4][2]>>, m |-> NoTerms]
  ELSE IF bs[1][1] = "l" /\ bs[1][3] = 0 /\ \A j \in 2 .. 4 : bs[j] = <<"l", bs[1][2], j-1>> THEN bs[1][2]
  ELSE [k |-> Zero, m |-> (bs :> 1)]
BytesOf(L) ==
  IF DOMAIN L.m = {} THEN [j \in 1 .. 4 |-> C(L.k[j])]
  ELSE IF L.k = Zero /\ Cardinality(DOMAIN L.m) = 1 /\ \A a \in DOMAIN L.m : L.m[a] = 1
       THEN CHOOSE a \in DOMAIN L.m : TRUE
  ELSE [j \in 1 .. 4 |-> <<"l", L, j-1>>]
Coef(L, a) == IF a \in DOMAIN L.m THEN L.m[a] ELSE 0
Combine(A, B, s) ==      \* A + s*B, s = 1 or -1
  LET D == {a \in DOMAIN A.m \cup DOMAIN B.m : Coef(A, a) + s * Coef(B, a) # 0}
  IN  [k |-> IF s = 1 THEN WAdd(A.k, B.k) ELSE WSub(A.k, B.k), m |-> [a \in D |-> Coef(A, a) + s * Coef(B, a)]]
HasU(bs) == \E i \in DOMAIN bs : bs[i] = U
AddWords(a, b, s) == IF HasU(a) \/ HasU(b) THEN <<U, U, U, U>> ELSE BytesOf(Combine(SumOf(a), SumOf(b), s))

(* --- the job ----------------------------------------------------------------- *)
Job  == Jobs[l]
Prog == Progs[Job.p]
Enc  == Prog.kind = "enc"
Symbolic == Job.mode = "all"
InByte(i)   == IF Symbolic THEN <<"a", "in", i>> ELSE C(Job.in[i+1])
PrevByte(j) == IF Symbolic THEN <<"a", "prev", j>> ELSE C(Job.prev[j+1])
InWord(k)   == [j \in 1 .. 4 |-> InByte(4*k + j - 1)]
PrevWord    == [j \in 1 .. 4 |-> PrevByte(j-1)]

(* The k-th word as the format stores it. *)
StoredWord(k) ==
  IF Prog.delta THEN BytesOf(Combine(SumOf(InWord(k)), SumOf(IF k = 0 THEN PrevWord ELSE InWord(k-1)), -1)) ELSE InWord(k)

(* Is this byte 0?  "yes", "no", "?" *)
IsZero(b, stored) ==     \* stored: the 32 bytes of the stored words
  IF b = U THEN "?"
  ELSE IF Known(b) THEN IF b[2] = 0 THEN "yes" ELSE "no"
  ELSE IF ~Enc THEN "?"
  ELSE LET i == CHOOSE i \in 1 .. 33 : i = 33 \/ stored[i] = b
       IN  IF i = 33 THEN "?" ELSE IF Job.zero[i] = 1 THEN "yes" ELSE "no"

(* --- memory ------------------------------------------------------------------- *)
RegionSize(r) == CASE r = "in" -> 32 [] r = "out" -> 32 [] r = "shuf" -> 4096 [] r = "len" -> 256
                   [] OTHER -> Len(Prog.globals[r])
Readable(r, off, n) == off >= 0 /\ off + n <= RegionSize(r)
MemByte(r, off) == CASE r = "in" -> InByte(off)
                     [] r = "out" -> out[off+1]
                     [] r = "shuf" -> C(Tables.shuf[off+1])
                     [] r = "len" -> C(Tables.len[off+1])
                     [] OTHER -> C(Prog.globals[r][off+1])

Reg(n) == g[n]
(* An operand's address: <<region, offset>>, or <<"?", why>>. *)
Addr(o) ==
  IF o.t = "g" THEN <<o.n, o.o>>
  ELSE IF o.t = "m" THEN
    LET b == Reg(o.b)
        i == IF o.x = "" THEN <<"n", 0>> ELSE Reg(o.x)
    IN  IF b[1] = "p" /\ i[1] = "n" THEN <<b[2], b[3] + i[2] * o.s + o.o>>
        ELSE IF b[1] = "n" /\ i[1] = "p" /\ o.s = 1 THEN <<i[2], i[3] + b[2] + o.o>>
        ELSE <<"?", "address is not a pointer">>
  ELSE <<"?", "not a memory operand">>

FrameAt(off, n) == \E i \in 1 .. Len(Prog.frame) : Prog.frame[i].o = off /\ Prog.frame[i].w = n
FrameKind(off) == Prog.frame[CHOOSE i \in 1 .. Len(Prog.frame) : Prog.frame[i].o = off].v
FrameVal(off) ==
  LET v == FrameKind(off) IN
    CASE v[1] = "ctrl" -> <<"n", Job.ctrl>>
      [] v[1] = "prev" -> <<"b", PrevWord>>
      [] OTHER -> v

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 256 [] n = 2 -> 65536 [] n = 3 -> 16777216 [] OTHER -> 0
(* The number or symbols a sequence of 1 to 8 bytes means. *)
FromBytes(bs) ==
  IF AllKnown(bs) /\ \A i \in 5 .. Len(bs) : bs[i][2] = 0 THEN
    IF Len(bs) >= 4 /\ bs[4][2] >= 128 THEN <<"b", [i \in 1 .. 4 |-> bs[i]]>>
    ELSE <<"n", bs[1][2] + (IF Len(bs) > 1 THEN 256 * bs[2][2] ELSE 0) + (IF Len(bs) > 2 THEN 65536 * bs[3][2] + 16777216 * bs[4][2] ELSE 0)>>
  ELSE IF Len(bs) = 4 /\ ~HasU(bs) THEN <<"b", bs>>
  ELSE U

(* The value of a source operand of n bytes; problems of an operand. *)
SourceBad(o, n) ==
  CASE o.t \in {"m", "g"} -> LET a == Addr(o) IN IF a[1] = "?" THEN a[2]
                              ELSE IF ~Readable(a[1], a[2], n) THEN "read outside " \o a[1] ELSE ""
    [] o.t = "f" -> IF FrameAt(o.o, n) THEN "" ELSE "no argument of that size at that place"
    [] o.t = "r" -> IF Reg(o.n) = U THEN "undefined register" ELSE ""
    [] o.t = "x" -> ""
    [] o.t = "i" -> ""
    [] OTHER -> "operand"
Low(v, n) == IF v[1] = "n" /\ n < 4 THEN <<"n", v[2] % Pow2(n)>>
             ELSE IF v[1] = "p" /\ n < 8 THEN U
             ELSE IF v[1] = "b" /\ n < 4 THEN FromBytes(SubSeq(v[2], 1, n))
             ELSE v
Value(o, n) ==
  CASE o.t = "i" -> <<"n", o.v>>
    [] o.t = "r" -> Low(Reg(o.n), n)
    [] o.t = "f" -> Low(FrameVal(o.o), n)
    [] OTHER -> LET a == Addr(o) IN FromBytes([i \in 1 .. n |-> MemByte(a[1], a[2] + i - 1)])

(* n bytes of a vector source. *)
FrameBytes(off, n) == LET v == FrameVal(off) IN
  IF v[1] = "b" THEN v[2] ELSE IF v[1] = "n" /\ n = 2 THEN <<C(v[2] % 256), C(v[2] \div 256)>> ELSE [i \in 1 .. n |-> U]
Vec(o, n) ==
  CASE o.t = "x" -> SubSeq(x[o.n], 1, n)
    [] o.t = "f" -> FrameBytes(o.o, n)
    [] o.t = "r" -> LET v == Reg(o.n) IN IF v[1] = "b" THEN v[2]
                    ELSE IF v[1] = "n" THEN [i \in 1 .. n |-> C((v[2] \div Pow2(i-1)) % 256)] ELSE [i \in 1 .. n |-> U]
    [] OTHER -> LET a == Addr(o) IN [i \in 1 .. n |-> MemByte(a[1], a[2] + i - 1)]

(* --- instructions --------------------------------------------------------------- *)
Word16(bs, i) == IF Known(bs[2*i+1]) /\ Known(bs[2*i+2]) THEN bs[2*i+1][2] + 256 * bs[2*i+2][2] ELSE -1
Signed16(n) == IF n >= 32768 THEN n - 65536 ELSE n
Put16(n) == IF n < 0 THEN <<U, U>> ELSE <<C(n % 256), C(n \div 256)>>
Lanes16(f(_)) == LET w == [i \in 0 .. 7 |-> Put16(f(i))] IN [b \in 1 .. 16 |-> w[(b-1) \div 2][((b-1) % 2) + 1]]
Lanes32(f(_)) == LET w == [i \in 0 .. 3 |-> f(i)] IN [b \in 1 .. 16 |-> w[(b-1) \div 4][((b-1) % 4) + 1]]
Sub4(bs, i) == <<bs[4*i+1], bs[4*i+2], bs[4*i+3], bs[4*i+4]>>

MinByte(a, b, stored) ==
  IF Known(a) /\ Known(b) THEN C(Min2(a[2], b[2]))
  ELSE LET za == IsZero(a, stored) zb == IsZero(b, stored) IN
       IF za = "yes" \/ zb = "yes" THEN C(0)
       ELSE IF (a = C(1) /\ zb = "no") \/ (b = C(1) /\ za = "no") THEN C(1)
       ELSE U
StoredBytes == LET W == [k \in 0 .. 7 |-> StoredWord(k)] IN [i \in 1 .. 32 |-> W[(i-1) \div 4][((i-1) % 4) + 1]]
Pack(n) == IF n < 0 THEN U ELSE LET s == Signed16(n) IN C(IF s < 0 THEN 0 ELSE Min2(s, 255))
Zeros(n) == [i \in 1 .. n |-> C(0)]

(* A vector instruction with sources a (first in the file) and b, or one. *)
VecOp(op, n, a, b) ==
  CASE op = "VPMINUB"   -> LET S == StoredBytes IN [i \in 1 .. 16 |-> MinByte(a[i], b[i], S)]
    [] op = "VPMINSW"   -> LET F(i) == LET p == Word16(a, i) q == Word16(b, i) IN
                              IF p < 0 \/ q < 0 THEN -1 ELSE IF Signed16(p) < Signed16(q) THEN p ELSE q IN Lanes16(F)
    [] op = "VPADDUSW"  -> LET F(i) == LET p == Word16(a, i) q == Word16(b, i) IN IF p < 0 \/ q < 0 THEN -1 ELSE Min2(p + q, 65535) IN Lanes16(F)
    [] op = "VPACKUSWB" -> [i \in 1 .. 16 |-> IF i <= 8 THEN Pack(Word16(b, i-1)) ELSE Pack(Word16(a, i-9))]
    [] op = "VPADDD"    -> LET F(i) == AddWords(Sub4(a, i), Sub4(b, i), 1) IN Lanes32(F)
    [] op = "VPSUBD"    -> LET F(i) == AddWords(Sub4(b, i), Sub4(a, i), -1) IN Lanes32(F)
    [] op = "VPSHUFB"   -> [i \in 1 .. 16 |-> IF ~Known(a[i]) THEN U ELSE IF a[i][2] >= 128 THEN C(0) ELSE b[(a[i][2] % 16) + 1]]
    [] op = "VPALIGNR"  -> LET s == a \o b \o Zeros(32) IN [i \in 1 .. 16 |-> s[Min2(i + n, 64)]]
    [] op = "VPXOR"     -> IF a = b THEN Zeros(16) ELSE [i \in 1 .. 16 |-> IF Known(a[i]) /\ Known(b[i]) THEN C(a[i][2] ^^ b[i][2]) ELSE U]
    [] op = "VPAND"     -> [i \in 1 .. 16 |-> IF Known(a[i]) /\ Known(b[i]) THEN C(a[i][2] & b[i][2]) ELSE U]
    [] op = "VPOR"      -> [i \in 1 .. 16 |-> IF a[i] = b[i] \/ b[i] = C(0) THEN a[i] ELSE IF a[i] = C(0) THEN b[i]
                                             ELSE IF Known(a[i]) /\ Known(b[i]) THEN C(a[i][2] | b[i][2]) ELSE U]
    [] op = "VPSLLDQ"   -> [i \in 1 .. 16 |-> IF i > n THEN a[i-n] ELSE C(0)]
    [] op = "VPSRLDQ"   -> [i \in 1 .. 16 |-> IF i + n <= 16 THEN a[i+n] ELSE C(0)]
    [] op = "VPSHUFD"   -> LET F(i) == Sub4(a, (n \div Pow4[i+1]) % 4) IN Lanes32(F)
    [] op = "MOVE"      -> a
    [] op = "LOW4"      -> [i \in 1 .. 16 |-> IF i <= 4 THEN a[i] ELSE C(0)]
    [] op = "DUP4"      -> [i \in 1 .. 16 |-> a[((i-1) % 4) + 1]]
    [] op = "DUP2"      -> [i \in 1 .. 16 |-> a[((i-1) % 2) + 1]]
    [] op = "DUP1"      -> [i \in 1 .. 16 |-> a[1]]

Mask(bs) == IF AllKnown(bs)
            THEN LET B(i) == IF bs[i][2] >= 128 THEN 1 ELSE 0
                     P == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
                     S[i \in 0 .. 16] == IF i = 0 THEN 0 ELSE S[i-1] + B(i) * P[i]
                 IN  <<"n", S[16]>>
            ELSE U

(* Integer arithmetic on numbers and pointers; U where it leaves the domain. *)
Shift == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Alu(op, s, d) ==
  IF s[1] \notin {"n", "p"} \/ d[1] \notin {"n", "p"} THEN U
  ELSE CASE op = "add" -> IF s[1] = "n" /\ d[1] = "n" THEN <<"n", s[2] + d[2]>>
                          ELSE IF s[1] = "p" /\ d[1] = "n" THEN <<"p", s[2], s[3] + d[2]>>
                          ELSE IF s[1] = "n" THEN <<"p", d[2], d[3] + s[2]>> ELSE U
    [] op = "sub" -> IF s[1] # "n" THEN U ELSE IF d[1] = "p" THEN <<"p", d[2], d[3] - s[2]>>
                     ELSE IF d[2] >= s[2] THEN <<"n", d[2] - s[2]>> ELSE U
    [] s[1] = "p" \/ d[1] = "p" -> U
    [] op = "and" -> <<"n", s[2] & d[2]>>
    [] op = "or"  -> <<"n", s[2] | d[2]>>
    [] op = "xor" -> <<"n", s[2] ^^ d[2]>>
    [] op = "shl" -> IF s[2] <= 12 /\ d[2] < 65536 THEN <<"n", d[2] * Shift[s[2]+1]>> ELSE U
    [] op = "shr" -> IF s[2] <= 16 THEN <<"n", d[2] \div Shift[s[2]+1]>> ELSE <<"n", 0>>

I == Prog.code[pc]    \* [o, w, n, s, d]: operation, width, immediate, sources, destination

(* Where the instruction is at fault, and what it does otherwise. *)
SourcesBad == LET B == {SourceBad(I.s[i], I.w) : i \in 1 .. Len(I.s)} \ {""} IN IF B = {} THEN "" ELSE CHOOSE b \in B : TRUE
DestBad ==
  CASE I.d.t \in {"m", "g"} -> LET a == Addr(I.d) IN IF a[1] = "?" THEN a[2]
                     ELSE IF a[1] # "out" THEN "store into " \o a[1]
                     ELSE IF ~Readable(a[1], a[2], I.w) THEN "store outside the output" ELSE ""
    [] I.d.t = "f" -> IF I.d.o = Prog.ret /\ I.w = 2 THEN "" ELSE "store to an argument"
    [] OTHER -> ""

Result ==
  IF I.o = "vec" THEN <<"v", VecOp(I.f, I.n, Vec(I.s[1], I.w), IF Len(I.s) > 1 THEN Vec(I.s[2], I.w) ELSE <<>>)>>
  ELSE IF I.o = "mask" THEN Mask(Vec(I.s[1], 16))
  ELSE IF I.o = "lea" THEN LET a == Addr(I.s[1]) IN IF a[1] = "?" THEN U ELSE <<"p", a[1], a[2]>>
  ELSE IF I.o = "mov" THEN IF I.s[1].t = "x" THEN <<"v", Vec(I.s[1], I.w)>> ELSE Value(I.s[1], I.w)
  ELSE IF I.o = "alu" THEN Alu(I.f, Value(I.s[1], I.w), Value(I.s[2], I.w))
  ELSE U

OutWith(off, bs) == [i \in 1 .. 32 |-> IF i > off /\ i <= off + Len(bs) THEN bs[i - off] ELSE out[i]]
ToBytes(v, n) == IF v[1] = "n" THEN [i \in 1 .. n |-> IF i <= 4 THEN C((v[2] \div Pow2(i-1)) % 256) ELSE C(0)]
                 ELSE IF v[1] = "b" /\ n = 4 THEN v[2] ELSE [i \in 1 .. n |-> U]

Do(r) ==
  CASE I.d.t = "x" -> /\ x' = [x EXCEPT ![I.d.n] = r[2]]
                      /\ UNCHANGED <<g, out, ret>>
    [] I.d.t = "r" -> /\ g' = [g EXCEPT ![I.d.n] = IF r[1] = "v" THEN FromBytes(r[2]) ELSE r]
                      /\ UNCHANGED <<x, out, ret>>
    [] I.d.t = "f" -> ret' = r /\ UNCHANGED <<g, x, out>>
    [] OTHER       -> /\ out' = OutWith(Addr(I.d)[2], IF r[1] = "v" THEN r[2] ELSE ToBytes(r, I.w))
                      /\ UNCHANGED <<g, x, ret>>

(* --- what the function has to have done at RET ------------------------------------ *)
Offset8(k) == IF k < 4 THEN OffsetIn(Job.ctrl % 256, k) ELSE GroupBytes(Job.ctrl % 256, 4) + OffsetIn(Job.ctrl \div 256, k - 4)
Size8(k)   == IF k < 4 THEN Size(Job.ctrl % 256, k) ELSE Size(Job.ctrl \div 256, k - 4)
Packed(k)  == [j \in 1 .. 4 |-> IF j <= Size8(k) THEN InByte(Offset8(k) + j - 1) ELSE C(0)]
Wanted[k \in 0 .. 7] ==
  IF ~Prog.delta THEN Packed(k) ELSE AddWords(Packed(k), IF k = 0 THEN PrevWord ELSE Wanted[k-1], 1)

(* Encoding: the control value the zero bytes determine. *)
ZLen(k) == LET Z(j) == IF Symbolic THEN Job.zero[4*k + j] = 1 ELSE StoredWord(k)[j] = C(0)
           IN  IF ~Z(4) THEN 4 ELSE IF ~Z(3) THEN 3 ELSE IF ~Z(2) THEN 2 ELSE 1
EncCtrl == LET S[k \in 0 .. 8] == IF k = 0 THEN 0 ELSE S[k-1] + (ZLen(k-1) - 1) * (IF k <= 4 THEN Pow4[k] ELSE 256 * Pow4[k-4]) IN S[8]
EncOffset[k \in 0 .. 8] == IF k = 0 THEN 0 ELSE EncOffset[k-1] + ZLen(k-1)

Verdict ==
  IF Enc THEN
    IF ret # <<"n", EncCtrl>> THEN "wrong control value"
    ELSE LET S == StoredBytes O == EncOffset IN
         IF \E k \in 0 .. 7 : \E j \in 1 .. ZLen(k) : out[O[k] + j] # S[4*k + j] THEN "wrong bytes" ELSE ""
  ELSE LET W == Wanted IN IF \E k \in 0 .. 7 : Sub4(out, k) # W[k] THEN "wrong words" ELSE ""
(* The real function's output, in a replay.  Bytes the program did not write   *)
(* are as they were before.                                                    *)
SameAsReal ==
  /\ \A i \in 1 .. 32 : out[i] = (IF Job.out[i] = -1 THEN U ELSE C(Job.out[i]))
  /\ Enc => ret = <<"n", Job.ret>>

GPRs == {"AX", "BX", "CX", "DX", "SI", "DI", "R8", "R9", "R10", "R11", "R12", "R13", "R15"}
XMMs == 0 .. 15
NoG == [r \in GPRs |-> U]
NoX == [r \in XMMs |-> [i \in 1 .. 16 |-> U]]
NoOut == [i \in 1 .. 32 |-> U]

Bound(k) == (NJ * k) \div Chunks
Init == \E k \in 1 .. Chunks : /\ l = Bound(k-1) + 1 /\ end = Bound(k)
                               /\ pc = 1 /\ g = NoG /\ x = NoX /\ out = NoOut /\ ret = U /\ bad = ""

Fault(why) == bad' = why /\ UNCHANGED <<l, end, pc, g, x, out, ret>>

Exec ==
  /\ I.o \notin {"ret", "nop"}
  /\ LET sb == IF I.o = "lea" THEN "" ELSE SourcesBad
         db == DestBad IN
     IF sb # "" THEN Fault(sb)
     ELSE IF db # "" THEN Fault(db)
     ELSE LET r == Result IN
            /\ Do(r) /\ pc' = pc + 1 /\ UNCHANGED <<l, end, bad>>
Nop == I.o = "nop" /\ pc' = pc + 1 /\ UNCHANGED <<l, end, g, x, out, ret, bad>>
Ret ==
  /\ I.o = "ret"
  /\ LET v == Verdict IN
     IF v # "" THEN Fault(v)
     ELSE IF Job.mode = "replay" /\ ~SameAsReal THEN Fault("the model's result is not the machine's")
     ELSE /\ l' = l + 1 /\ pc' = 1 /\ g' = NoG /\ x' = NoX /\ out' = NoOut /\ ret' = U
          /\ UNCHANGED <<end, bad>>

Done == (l > end \/ bad # "") /\ UNCHANGED vars
Next == \/ bad = "" /\ l <= end /\ (IF pc > Len(Prog.code) THEN Fault("ran past the end") ELSE IF I.o = "ret" THEN Ret ELSE IF I.o = "nop" THEN Nop ELSE Exec)
        \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
===============================================================================
