------------------------------ MODULE TraceBench ------------------------------
(* Validates recorded runs of the real tool, byte for byte.  An event has the  *)
(* input lines, the README before, the mode, and afterwards: exit status,      *)
(* standard output and the README, and whether a README elsewhere changed.     *)
EXTENDS SvbBench, TLC, Json

CONSTANTS TraceFile, Chunks

(* "## Benchmarks\n\n```text\n" and so on *)
BStart == <<35, 35, 32, 66, 101, 110, 99, 104, 109, 97, 114, 107, 115, 10, 10, 96, 96, 96, 116, 101, 120, 116, 10>>
BFence == <<96, 96, 96, 10>>
BNL    == <<10>>
BRule  == <<45, 45>>
BEnv   == [goos |-> <<103, 111, 111, 115>>, goarch |-> <<103, 111, 97, 114, 99, 104>>, pkg |-> <<112, 107, 103>>, cpu |-> <<99, 112, 117>>]
BBench == <<66, 101, 110, 99, 104, 109, 97, 114, 107>>

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)

(* pos: symbols of the result that are accounted for; made: lines emitted.     *)
VARIABLES l, end, i, pos, made, seen, bad
vars == <<l, end, i, pos, made, seen, bad>>
Bound(k) == (N * k) \div Chunks
Init == \E k \in 1 .. Chunks :
          l = Bound(k-1) + 1 /\ end = Bound(k) /\ i = -1 /\ pos = 0 /\ made = 0 /\ seen = FALSE /\ bad = ""

Reject(why) == bad' = why /\ UNCHANGED <<l, end, i, pos, made, seen>>
Accept == l' = l + 1 /\ i' = -1 /\ pos' = 0 /\ made' = 0 /\ seen' = FALSE /\ UNCHANGED <<end, bad>>

Got(e) == IF e.mode = "write" THEN e.after ELSE e.stdout
OldBody(e) == Find(e.readme, Start, 1) + Len(Start)

(* Everything up to and including the opening of the block. *)
Open(e) ==
  LET s == Find(e.readme, Start, 1)  b == s + Len(Start)
  IN  IF s = 0 THEN Reject("contract: no benchmark section")
      ELSE IF e.decoy THEN Reject("a README elsewhere was changed")
      ELSE IF e.rc # 0 THEN Reject("the tool failed")
      ELSE IF e.mode = "print" /\ e.after # e.readme THEN Reject("README changed without being asked to")
      ELSE IF ~StartsWith(Got(e), SubSeq(e.readme, 1, b - 1)) THEN Reject("text before the block deviates")
      ELSE pos' = b - 1 /\ i' = 0 /\ UNCHANGED <<l, end, made, seen, bad>>

(* One line of input. *)
Line(e) ==
  LET ls == LineOf(<<>>, seen, e.lines[i+1])  t == Text(ls) IN
    IF ls # <<>> /\ ~At(Got(e), pos + 1, t) THEN Reject("block deviates at input line " \o ToString(i + 1))
    ELSE /\ pos' = pos + Len(t) /\ made' = made + Len(ls) /\ seen' = Seen(seen, e.lines[i+1])
         /\ i' = i + 1 /\ UNCHANGED <<l, end, bad>>

Rest(e) ==
  LET r == Find(e.readme, Fence, OldBody(e)) IN
    IF r = 0 \/ made = 0 THEN Reject("contract: no end of the section or no recognised line")
    ELSE IF SubSeq(Got(e), pos + 1, Len(Got(e))) # SubSeq(e.readme, r, Len(e.readme)) THEN Reject("text after the new body deviates")
    ELSE Accept

Step == /\ bad = "" /\ l <= end
        /\ LET e == Trace[l] IN
             IF i = -1 THEN Open(e) ELSE IF i = Len(e.lines) THEN Rest(e) ELSE Line(e)
Done == l > end /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
===============================================================================
