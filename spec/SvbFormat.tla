------------------------------- MODULE SvbFormat ------------------------------
(* The Stream VByte format: what a stream of n words is, and what it decodes   *)
(* to.  Everything here is a definition; SvbFormatMC checks its laws.          *)
EXTENDS SvbWords

Pow4 == <<1, 4, 16, 64>>

CtrlLen(n) == (n + 3) \div 4

(* Number of words in group g (from 0) of a sequence of n words. *)
InGroup(n, g) == Min2(4, n - 4*g)

(* The k-th (from 0) two-bit code of control byte c, and the length it means. *)
Code(c, k) == (c \div Pow4[k+1]) % 4
Size(c, k) == Code(c, k) + 1

(* Bytes taken by the first m words of a group with control byte c. *)
GroupBytes(c, m) ==
    (IF m > 0 THEN Size(c, 0) ELSE 0) + (IF m > 1 THEN Size(c, 1) ELSE 0)
  + (IF m > 2 THEN Size(c, 2) ELSE 0) + (IF m > 3 THEN Size(c, 3) ELSE 0)

(* Offset of the k-th word's bytes in its group. *)
OffsetIn(c, k) == GroupBytes(c, k)

(* The control byte of a group whose words are ws (1 to 4 of them): absent     *)
(* words contribute code 0.                                                    *)
CtrlOf(ws) ==
    (WLen(ws[1]) - 1)
  + (IF Len(ws) > 1 THEN 4  * (WLen(ws[2]) - 1) ELSE 0)
  + (IF Len(ws) > 2 THEN 16 * (WLen(ws[3]) - 1) ELSE 0)
  + (IF Len(ws) > 3 THEN 64 * (WLen(ws[4]) - 1) ELSE 0)

(* Whole-stream definitions, used on small sequences (the machines and the     *)
(* trace specifications walk group by group instead).                          *)
RECURSIVE DataOf(_)
DataOf(ws) == IF ws = <<>> THEN <<>>
              ELSE SubSeq(Head(ws), 1, WLen(Head(ws))) \o DataOf(Tail(ws))

Group(ws, g) == SubSeq(ws, 4*g + 1, Min2(4*g + 4, Len(ws)))

Encode(ws) == [g \in 1 .. CtrlLen(Len(ws)) |-> CtrlOf(Group(ws, g-1))] \o DataOf(ws)

RECURSIVE DataNeeded(_, _, _)
DataNeeded(s, n, g) ==
  IF g = CtrlLen(n) THEN 0
  ELSE GroupBytes(s[g+1], InGroup(n, g)) + DataNeeded(s, n, g+1)

(* s is long enough for the n words its control bytes announce. *)
WellFormed(n, s) ==
  /\ Len(s) >= CtrlLen(n)
  /\ Len(s) >= CtrlLen(n) + DataNeeded(s, n, 0)

RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(s, n, i, pos) ==
  IF i = n THEN <<>>
  ELSE LET sz == Size(s[(i \div 4) + 1], i % 4)
       IN  <<WordFrom(s, pos, sz)>> \o DecodeFrom(s, n, i+1, pos + sz)
Decode(n, s) == DecodeFrom(s, n, 0, CtrlLen(n))

(* Differential coding. *)
Deltas(ws, base) == [i \in 1 .. Len(ws) |-> WSub(ws[i], IF i = 1 THEN base ELSE ws[i-1])]
RECURSIVE Sums(_, _)
Sums(ds, base) == IF ds = <<>> THEN <<>>
                  ELSE LET s == WAdd(base, Head(ds)) IN <<s>> \o Sums(Tail(ds), s)

(* Segment composition: control bytes of a then of b, data of a then of b. *)
CtrlPart(n, s) == SubSeq(s, 1, CtrlLen(n))
DataPart(n, s) == SubSeq(s, CtrlLen(n) + 1, Len(s))
===============================================================================
