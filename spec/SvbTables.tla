------------------------------- MODULE SvbTables ------------------------------
(* What the shared lookup tables must say about a control byte, derived from   *)
(* the format.  The shuffle tables are byte permutations in the sense of the   *)
(* SIMD shuffle instruction: byte i of the result is byte p[i] of the source,  *)
(* or 0 if bit 7 of p[i] is set.                                               *)
EXTENDS SvbFormat

Shuffle(src, p) == [i \in 1 .. Len(p) |-> IF p[i] >= 128 THEN 0 ELSE src[(p[i] % 16) + 1]]

NumLens(c)  == <<Size(c, 0), Size(c, 1), Size(c, 2), Size(c, 3)>>
CtrlSize(c) == GroupBytes(c, 4)

(* Packing: the first CtrlSize(c) bytes are the kept bytes of the four words,  *)
(* in order; what follows is not part of the encoding.                         *)
PackAt(c, i) ==     \* source of packed byte i (from 0)
  LET k == CHOOSE j \in 0 .. 3 : OffsetIn(c, j) <= i /\ i < OffsetIn(c, j) + Size(c, j)
  IN  4 * k + (i - OffsetIn(c, k))
EncodeShuffleOK(c, p) ==
  /\ Len(p) = 16
  /\ \A i \in 0 .. CtrlSize(c) - 1 : p[i+1] < 128 /\ p[i+1] % 16 = PackAt(c, i)

(* Unpacking: byte j of word k comes from the packed bytes, or is 0. *)
DecodeShuffleOK(c, p) ==
  /\ Len(p) = 16
  /\ \A k \in 0 .. 3, j \in 0 .. 3 :
       LET b == p[4*k + j + 1] IN
         IF j < Size(c, k) THEN b < 128 /\ b % 16 = OffsetIn(c, k) + j ELSE b >= 128

(* Two control bytes, the low one first. *)
SizeTwo(lo, hi) == CtrlSize(lo) + CtrlSize(hi)
===============================================================================
