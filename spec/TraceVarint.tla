------------------------------ MODULE TraceVarint -----------------------------
(* Validates recorded calls of the varint baseline and the helpers:            *)
(*   kind "put"   words -> bytes, ret = number of bytes written (bytes are     *)
(*                those)                                                       *)
(*   kind "get"   bytes -> words, ret = number of bytes consumed               *)
(*   kind "delta" words -> out, the differences                                *)
(*   kind "sort"  words -> out                                                 *)
(* n is the number of words; delta/prev as in SvbCodec.  Calls are walked word *)
(* by word.                                                                    *)
EXTENDS SvbVarint, TLC, Json

CONSTANTS TraceFile, Chunks

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)

VARIABLES l, end, i, pos, prev, bad
vars == <<l, end, i, pos, prev, bad>>

Bound(k) == (N * k) \div Chunks
Init == \E k \in 1 .. Chunks :
          /\ l = Bound(k-1) + 1 /\ end = Bound(k)
          /\ i = -1 /\ pos = 0 /\ prev = Zero /\ bad = ""

Reject(why) == bad' = why /\ UNCHANGED <<l, end, i, pos, prev>>
Accept == l' = l + 1 /\ i' = -1 /\ pos' = 0 /\ prev' = Zero /\ UNCHANGED <<end, bad>>

Start ==
  /\ bad = "" /\ l <= end /\ i = -1
  /\ LET e == Trace[l] IN
       IF e.res # "ok" THEN Reject("call did not return: " \o e.res)
       ELSE IF Len(e.words) # 4 * e.n THEN Reject("number of words deviates")
       ELSE i' = 0 /\ prev' = e.prev /\ UNCHANGED <<l, end, pos, bad>>

Finish(e) ==
  CASE e.kind \in {"put", "get"} ->
         IF e.ret # pos \/ Len(e.bytes) # pos THEN Reject("number of bytes deviates") ELSE Accept
    [] e.kind = "sort" ->
         IF Len(e.out) # 4 * e.n THEN Reject("contract: length")
         ELSE IF ~Ascending(e.out, e.n) THEN Reject("not ascending")
         ELSE IF ~SameWords(e.words, e.out, e.n) THEN Reject("not a permutation") ELSE Accept
    [] OTHER -> Accept

Stored(e, w) == IF e.delta THEN WSub(w, prev) ELSE w

Walk ==
  /\ bad = "" /\ l <= end /\ i >= 0
  /\ LET e == Trace[l]  w == WordAt(e.words, i) IN
       IF i = e.n THEN Finish(e)
       ELSE CASE e.kind = "put" ->
                   LET v == VarintOf(Stored(e, w)) IN
                     IF pos + Len(v) > Len(e.bytes) \/ SubSeq(e.bytes, pos + 1, pos + Len(v)) # v
                     THEN Reject("bytes of word " \o ToString(i) \o " deviate")
                     ELSE i' = i + 1 /\ pos' = pos + Len(v) /\ prev' = w /\ UNCHANGED <<l, end, bad>>
              [] e.kind = "get" ->
                   IF pos >= Len(e.bytes) THEN Reject("contract: more words than bytes")
                   ELSE LET d == VarintAt(e.bytes, pos) IN
                     IF VarintLenAt(e.bytes, pos) # VLen(d) THEN Reject("contract: not what an encoder writes")
                     ELSE IF w # (IF e.delta THEN WAdd(d, prev) ELSE d) THEN Reject("word " \o ToString(i) \o " deviates")
                     ELSE i' = i + 1 /\ pos' = pos + VLen(d) /\ prev' = w /\ UNCHANGED <<l, end, bad>>
              [] e.kind = "delta" ->
                   IF WordAt(e.out, i) # (IF i = 0 THEN w ELSE WSub(w, prev)) THEN Reject("difference " \o ToString(i) \o " deviates")
                   ELSE i' = i + 1 /\ pos' = pos /\ prev' = w /\ UNCHANGED <<l, end, bad>>
              [] e.kind = "sort" -> i' = e.n /\ UNCHANGED <<l, end, pos, prev, bad>>

Done == l > end /\ UNCHANGED vars
Next == Start \/ Walk \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
===============================================================================
