------------------------------ MODULE SvbFormatMC ------------------------------
(* The laws of the format, checked on every sequence of up to MaxN words over  *)
(* Words in radix R, every base in Bases:                                      *)
(*   C01  length and minimality of Encode          C02  Decode inverts Encode  *)
(*   C03  what does not matter to Decode does not  C04  differential coding    *)
(*   C15  composition of blocks and segments       C16  sufficiency            *)
(* and, for the machine the traces are judged by, that it accepts exactly what *)
(* these whole-stream definitions say.                                         *)
EXTENDS SvbCodec, SvbPeriodic, TLC

CONSTANTS MaxN, WordSet, BaseSet

AllWords == Word
(* one word per length, and the two extremes *)
FewWords == { <<0,0,0,0>>, <<1,0,0,0>>, <<0,1,0,0>>, <<1,0,1,0>>, <<0,0,0,1>>, <<R-1,R-1,R-1,R-1>> }
FewBases == { <<0,0,0,0>>, <<R-1,R-1,R-1,R-1>>, <<1,0,0,1>> }

VARIABLES ws, base
vars == <<ws, base>>
Init == ws = <<>> /\ base \in BaseSet
Next == /\ Len(ws) < MaxN
        /\ \E w \in WordSet : ws' = Append(ws, w)
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

n == Len(ws)
RECURSIVE SumLen(_), Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
SumLen(s) == IF s = <<>> THEN 0 ELSE WLen(Head(s)) + SumLen(Tail(s))

Typed == \A i \in 1 .. n : ws[i] \in Word

(* C01: the empty sequence is the empty stream; the length is the control      *)
(* bytes plus the minimal lengths; no byte is out of range.                    *)
LengthLaw == /\ Len(Encode(ws)) = CtrlLen(n) + SumLen(ws)
             /\ n = 0 => Encode(ws) = <<>>
             /\ \A i \in 1 .. CtrlLen(n) : Encode(ws)[i] \in 0 .. 255
             /\ \A i \in CtrlLen(n)+1 .. Len(Encode(ws)) : Encode(ws)[i] \in Digit
(* Minimal: dropping the highest digit of any value would change it. *)
MinimalLaw == \A i \in 1 .. n : WLen(ws[i]) > 1 => ws[i][WLen(ws[i])] # 0
(* Absent codes are zero. *)
AbsentLaw == n % 4 # 0 => \A k \in (n % 4) .. 3 : Code(Encode(ws)[CtrlLen(n)], k) = 0

(* C02 *)
RoundTrip == Decode(n, Encode(ws)) = ws

(* C03: trailing bytes and absent codes do not matter; longer codes do not.    *)
Trailing == \A b \in {0, R-1} : Decode(n, Encode(ws) \o <<b, b>>) = ws
JunkCodes(s) == IF n % 4 = 0 THEN s
                ELSE [s EXCEPT ![CtrlLen(n)] = @ + (3 * Pow4[4])]   \* the fourth code is absent
Junk == Decode(n, JunkCodes(Encode(ws))) = ws
Wide == Decode(n, [g \in 1 .. CtrlLen(n) |-> 255] \o
                  [i \in 1 .. 4*n |-> ws[((i-1) \div 4) + 1][((i-1) % 4) + 1]]) = ws

(* C04 *)
DeltaLaw == /\ Sums(Deltas(ws, base), base) = ws
            /\ Deltas(Sums(ws, base), base) = ws
            /\ Sums(Decode(n, Encode(Deltas(ws, base))), base) = ws

(* C15: cut at every multiple of 4, plain and differential. *)
Cut(k) == LET a == SubSeq(ws, 1, k)
              b == SubSeq(ws, k+1, n)
              sa == Encode(a)
              sb == Encode(b)
          IN  Encode(ws) = CtrlPart(k, sa) \o CtrlPart(n-k, sb) \o DataPart(k, sa) \o DataPart(n-k, sb)
CutDelta(k) == k > 0 => Deltas(ws, base) = Deltas(SubSeq(ws, 1, k), base) \o Deltas(SubSeq(ws, k+1, n), ws[k])
Compose == \A k \in 0 .. n : k % 4 = 0 => Cut(k) /\ CutDelta(k)

(* Repeating a block of whole groups repeats its control and its data bytes.   *)
Periodic ==
  (n % 4 = 0 /\ n > 0) =>
    \A k \in {0, 2} : \A t \in {0, 1, n - 1} :
      LET all == Times(ws, k) \o SubSeq(ws, 1, t)
          ds  == Deltas(all, ws[n])
      IN  /\ Encode(all) = RunsOf(PeriodCtrl(ws, k, t)) \o RunsOf(PeriodData(ws, k, t))
          /\ Encode(ds) = RunsOf(PeriodCtrl(Around(ws), k, t)) \o RunsOf(PeriodData(Around(ws), k, t))
          /\ Flat(all) = RunsOf(PeriodWords(ws, k, t))
          /\ Sums(ds, ws[n]) = all

(* --- the call machine against these definitions ---------------------------- *)
Call(kind, delta, words, bytes, cnt, wl) ==
  [kind |-> kind, shape |-> "stream", impl |-> "scalar", delta |-> delta, prev |-> base,
   count |-> cnt, words |-> words, wlen |-> wl, bytes |-> bytes, ctrl |-> <<>>, ret |-> -1,
   res |-> "ok", chg |-> <<>>, unw |-> <<>>]

Coded(delta) == Encode(IF delta THEN Deltas(ws, base) ELSE ws)

(* Streams that differ from s in one byte, or in length. *)
Near(s) == {s} \cup {[s EXCEPT ![i] = (@ + 1) % (IF i <= CtrlLen(n) THEN 256 ELSE R)] : i \in 1 .. Len(s)}
           \cup {Append(s, 0)} \cup (IF s = <<>> THEN {} ELSE {SubSeq(s, 1, Len(s)-1)})

WriteMachine ==
  \A delta \in BOOLEAN : \A s \in Near(Coded(delta)) :
    Right(Call("write", delta, Flat(ws), s, n, n)) <=> s = Coded(delta)

ReadMachine ==
  \A delta \in BOOLEAN : \A s \in Near(Coded(delta)) :
    LET d == IF WellFormed(n, s) THEN (IF delta THEN Sums(Decode(n, s), base) ELSE Decode(n, s)) ELSE <<>>
        e == Call("read", delta, Flat(ws), s, n, n)
    IN  /\ Sufficient(e) <=> WellFormed(n, s)
        /\ WellFormed(n, s) => (Right(e) <=> d = ws)

(* C16: exactly the strict prefixes of the needed bytes are insufficient. *)
Cuts == \A k \in 0 .. Len(Encode(ws)) :
          Sufficient(Call("read", FALSE, <<>>, SubSeq(Encode(ws), 1, k), n, n)) <=> k = Len(Encode(ws))

(* Blocks: eight, four and up to four words are what streams of that many      *)
(* words are, with the control bytes handed over separately.                   *)
Block(kind, shape, delta, words, bytes, ctrl, ret) ==
  [Call(kind, delta, words, bytes, n, n) EXCEPT !.shape = shape, !.ctrl = ctrl, !.ret = ret]
BlockMachine ==
  \A delta \in BOOLEAN :
    LET s == Coded(delta)
        c == IF n = 0 THEN <<0>> ELSE CtrlPart(n, s)
        d == DataPart(n, s)
    IN  (n <= 4) =>
          /\ \A k \in {n} \cup (IF n = 4 THEN {5, 9} ELSE {}) :
               LET up(kind, by, ct, rt) == [Block(kind, "upto4", delta, Flat(ws), by, ct, rt) EXCEPT !.count = k]
               IN  /\ Right(up("put", d, c, -1)) /\ Sufficient(up("put", d, c, -1))
                   /\ Right(up("get", d, c, Len(d))) /\ ~Right(up("get", d, c, Len(d) + 1))
                   /\ n > 0 => ~Sufficient(up("put", SubSeq(d, 1, Len(d)-1), c, -1))
                   /\ n > 0 => ~Sufficient(up("get", SubSeq(d, 1, Len(d)-1), c, -1))
          /\ n = 4 => Right(Block("put", "4", delta, Flat(ws), d, c, -1))
          /\ \A x \in Near(d) : (n = 4 /\ x # d /\ Len(x) = Len(d)) => ~Right(Block("put", "4", delta, Flat(ws), x, c, -1))
===============================================================================
