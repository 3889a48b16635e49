---------------------------- MODULE TracePeriodic -----------------------------
(* Validates giant calls of the real code: writers and readers of 2^29 words   *)
(* and more, whose arguments repeat a block and whose results are runs.        *)
EXTENDS SvbPeriodic, TLC, Json

CONSTANT TraceFile

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)

VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = ""

Whole(e, ws) == e.period = Len(ws) /\ e.period % 4 = 0 /\ e.tail < e.period /\ (e.delta => ws[Len(ws)] = e.prev)

Judge(e) ==
  IF e.kind = "write"
  THEN LET ws == WordsP(e.words, e.period)
           ds == IF e.delta THEN Around(ws) ELSE ws
       IN  IF ~Whole(e, ws) THEN "contract: not periodic"
           ELSE IF e.res # "ok" THEN "giant call did not return: " \o e.res
           ELSE IF e.ctrl # PeriodCtrl(ds, e.reps, e.tail) THEN "control bytes of a giant stream"
           ELSE IF e.data # PeriodData(ds, e.reps, e.tail) THEN "data bytes of a giant stream"
           ELSE ""
  ELSE LET s  == e.ctrl \o e.data
           ds == Decode(e.period, s)
           ws == IF e.delta THEN Sums(ds, e.prev) ELSE ds
       IN  IF ~WellFormed(e.period, s) \/ Len(s) # CtrlLen(e.period) + DataNeeded(s, e.period, 0) \/ ~Whole(e, ws)
           THEN "contract: not periodic"
           ELSE IF e.res # "ok" THEN "giant call did not return: " \o e.res
           ELSE IF e.words # PeriodWords(ws, e.reps, e.tail) THEN "words of a giant stream"
           ELSE ""

Step == /\ bad = "" /\ l <= N
        /\ LET b == Judge(Trace[l]) IN
             IF b = "" THEN l' = l + 1 /\ UNCHANGED bad ELSE bad' = b /\ UNCHANGED l
Done == l > N /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
===============================================================================
