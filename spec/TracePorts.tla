------------------------------ MODULE TracePorts ------------------------------
(* Validates, for every platform of the toolchain, what its front end says     *)
(* about the library ("package") and what a real build says ("build", rc).     *)
EXTENDS SvbPorts, Json

CONSTANTS TraceFile, Chunks

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)

VARIABLES l, end, bad
vars == <<l, end, bad>>
Bound(k) == (N * k) \div Chunks
Init == \E k \in 1 .. Chunks : l = Bound(k-1) + 1 /\ end = Bound(k) /\ bad = ""
Reject(why) == bad' = why /\ UNCHANGED <<l, end>>
Step == /\ bad = "" /\ l <= end
        /\ LET e == Trace[l] IN
             CASE e.op = "build"  -> IF e.rc # 0 THEN Reject("the library does not build") ELSE l' = l + 1 /\ UNCHANGED <<end, bad>>
               [] e.op = "port"   -> IF \E p \in DOMAIN Api : p \notin {e.pkgs[i] : i \in 1 .. Len(e.pkgs)}
                                     THEN Reject("a package is missing") ELSE l' = l + 1 /\ UNCHANGED <<end, bad>>
               [] e.op = "package" ->
                    IF ~Builds(e) THEN Reject("the library does not compile")
                    ELSE IF ~Exports(e) THEN Reject("exported functions differ")
                    ELSE l' = l + 1 /\ UNCHANGED <<end, bad>>
Done == l > end /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
===============================================================================
