------------------------------ MODULE TraceCodec ------------------------------
(* Validates recorded calls of the real code against SvbCodec.  Calls are      *)
(* independent, so the trace is cut into chunks validated in parallel: one     *)
(* initial state per chunk.  Which part of SvbCodec a call is judged by is the *)
(* Aspect:                                                                     *)
(*   "value"   the result is the one the format determines                     *)
(*   "memory"  only memory the call may touch is touched, and all of the       *)
(*             result is written                                               *)
(*   "refuse"  a call with too little data or room does not return             *)
(*   "all"     value and memory and refuse                                     *)
(* bad says why a call is rejected:                                            *)
(*   "..." a reason   the real code deviated from the specification            *)
(*   "contract: ..."  the driver made a call nothing is promised for           *)
(* The run must end in the Done state of every chunk: otherwise TLC reports a  *)
(* deadlock, so no call can be skipped silently.                               *)
EXTENDS SvbCodec, TLC, Json

CONSTANTS TraceFile, Chunks, Aspect

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)

VARIABLES l, end, g, pos, prev, bad
vars == <<l, end, g, pos, prev, bad>>

Bound(k) == (N * k) \div Chunks

Init == \E k \in 1 .. Chunks :
          /\ l = Bound(k-1) + 1 /\ end = Bound(k)
          /\ g = -1 /\ pos = 0 /\ prev = Zero /\ bad = ""

Values == Aspect \in {"value", "all"}
Memory == Aspect \in {"memory", "all"}

Reject(why) == bad' = why /\ UNCHANGED <<l, end, g, pos, prev>>
Accept == l' = l + 1 /\ g' = -1 /\ pos' = 0 /\ prev' = Zero /\ UNCHANGED <<end, bad>>

(* The call had too little room or data: it must have refused. *)
Refused(e) ==
  IF Aspect \in {"value", "memory"} THEN Reject("contract: too little data or room for this check")
  ELSE IF e.res # "panic" THEN Reject("short input accepted: " \o e.res)
  ELSE IF ~MayChangeOnPanic(e) THEN Reject("refused call changed memory outside its output")
  ELSE Accept

Start ==
  /\ bad = "" /\ l <= end /\ g = -1
  /\ LET e == Trace[l] IN
       IF ~InContract(e) THEN Reject("contract: call outside the specified domain")
       ELSE IF ~StartSufficient(e) THEN Refused(e)
       ELSE IF Values /\ e.res = "ok" /\ ~ResultStartOK(e) THEN Reject("result shorter than its control bytes")
       ELSE /\ g' = 0 /\ pos' = DataStart(e) /\ prev' = e.prev /\ UNCHANGED <<l, end, bad>>

(* All groups walked: there was enough data and room for a result. *)
Finish(e) ==
  IF Aspect = "refuse" THEN Reject("contract: enough data and room for this check")
  ELSE IF e.res # "ok" THEN Reject("sufficient input refused: " \o e.res)
  ELSE IF Values /\ ~EndOK(e, pos) THEN Reject("length, control value or returned count deviates")
  ELSE IF Memory /\ ~MayChange(e, pos) THEN Reject("memory changed that is not the call's to change")
  ELSE IF Memory /\ e.unw # <<>> THEN Reject("part of the result was not written")
  ELSE Accept

Walk ==
  /\ bad = "" /\ l <= end /\ g >= 0
  /\ LET e == Trace[l] IN
       IF g = Groups(e) THEN Finish(e)
       ELSE IF ~GroupSufficient(e, g, pos, prev) THEN Refused(e)
       ELSE IF Values /\ e.res = "ok" /\ ~GroupOK(e, g, pos, prev)
       THEN Reject("group " \o ToString(g) \o " deviates from the format")
       ELSE /\ g' = g + 1 /\ pos' = pos + Need(e, g, prev)
            /\ prev' = IF e.res = "ok" \/ Encodes(e) THEN LastWord(e, g) ELSE prev
            /\ UNCHANGED <<l, end, bad>>

Done == l > end /\ UNCHANGED vars

Next == Start \/ Walk \/ Done
Spec == Init /\ [][Next]_vars

Conforms == bad = ""
===============================================================================
