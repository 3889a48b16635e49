------------------------------ MODULE SvbSession ------------------------------
(* Histories of calls on a heap of the caller's objects (C11, C07).            *)
(*                                                                             *)
(* The heap maps object ids to byte images: slices the caller made, and        *)
(* results returned to it.  A call takes its arguments from the heap when it   *)
(* begins; when it ends, its result is the one these arguments determine, and  *)
(* nothing else on the heap has changed.  Calls may overlap in time if no      *)
(* output of one overlaps an input or output of the other.                     *)
(*                                                                             *)
(* The operators say what a step of a history does to the heap; TraceSession   *)
(* follows recorded histories with them, SvbHistories makes histories.         *)
EXTENDS SvbCodec

Region(o, off, len) == [o |-> o, off |-> off, len |-> len]
Overlap(a, b) == a.o = b.o /\ a.len > 0 /\ b.len > 0 /\ a.off < b.off + b.len /\ b.off < a.off + a.len

Bytes(heap, r) == SubSeq(heap[r.o], r.off + 1, r.off + r.len)
Replace(s, off, d) == [i \in 1 .. Len(s) |-> IF i > off /\ i <= off + Len(d) THEN d[i - off] ELSE s[i]]

(* The regions a call reads and writes.  c is the recorded call: src/soff/slen *)
(* its input, dst/doff/dlen its output (none for the writers).                 *)
In(c)  == Region(c.src, c.soff, c.slen)
Out(c) == IF c.kind = "write" THEN Region(0, 0, 0) ELSE Region(c.dst, c.doff, c.dlen)

(* Two calls that may overlap in time. *)
Independent(c, d) ==
  /\ ~Overlap(Out(c), Out(d)) /\ ~Overlap(Out(c), In(d)) /\ ~Overlap(In(c), Out(d))

(* A call and an object the caller changes. *)
Untouched(c, r) == ~Overlap(In(c), r) /\ ~Overlap(Out(c), r)

(* The call as SvbCodec sees it: its input as it was when the call began, its  *)
(* output as it was observed when the call ended.                              *)
AsCall(c, input, output) ==
  [kind |-> c.kind, shape |-> c.shape, impl |-> c.impl, delta |-> c.delta, prev |-> c.prev,
   count |-> IF c.kind = "write" THEN Len(input) \div 4 ELSE c.count,
   words |-> IF Encodes(c) THEN input ELSE output,
   wlen  |-> (IF Encodes(c) THEN Len(input) ELSE Len(output)) \div 4,
   bytes |-> IF Encodes(c) THEN output ELSE input,
   ctrl |-> c.ctrl, ret |-> c.ret, res |-> "ok", chg |-> <<>>, unw |-> <<>>]

(* How much of the output a call may change: the words it denotes, or the      *)
(* bytes of a block (32 for the unchecked encoders).                           *)
RECURSIVE UsedFrom(_, _, _, _)
UsedFrom(e, g, pos, p) == IF g = Groups(e) THEN pos
                          ELSE UsedFrom(e, g+1, pos + Need(e, g, p), LastWord(e, g))
Window(c, e) ==
  CASE c.kind = "put" -> IF Unchecked(e) THEN 32 ELSE UsedFrom(e, 0, 0, e.prev)
    [] OTHER          -> 4 * NWords(e)

(* The call did what its arguments determine, to its output and nothing else   *)
(* in its output slice.                                                        *)
Effect(c, input, before, after) ==
  LET e == AsCall(c, input, after) IN
    /\ Right(e)
    /\ c.kind # "write" => LET w == Window(c, e) IN
         \A i \in w + 1 .. Len(before) : after[i] = before[i]
===============================================================================
