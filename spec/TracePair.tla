------------------------------- MODULE TracePair -------------------------------
(* Validates pairs of results of the real code that must be the same:          *)
(*   roundtrip  the words written and the words read back (C02)                *)
(*   agree      the results of two implementations on the same arguments (C05) *)
(* l and r are the byte images of the results, or the part of both from offset *)
(* off on when the whole is long; llen and rlen are the full lengths.          *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS TraceFile, Chunks

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)

VARIABLES l, end, bad
vars == <<l, end, bad>>

Bound(k) == (N * k) \div Chunks
Init == \E k \in 1 .. Chunks : l = Bound(k-1) + 1 /\ end = Bound(k) /\ bad = ""

Completed(e) == e.lres = "ok" /\ e.rres = "ok"
Same(e) == e.llen = e.rlen /\ e.l = e.r

Step ==
  /\ bad = "" /\ l <= end
  /\ LET e == Trace[l] IN
       IF ~Completed(e) THEN bad' = "no result: " \o e.lres \o ", " \o e.rres /\ UNCHANGED <<l, end>>
       ELSE IF ~Same(e) THEN bad' = e.what \o " broken" /\ UNCHANGED <<l, end>>
       ELSE l' = l + 1 /\ UNCHANGED <<end, bad>>
Done == l > end /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
===============================================================================
