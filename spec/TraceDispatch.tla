----------------------------- MODULE TraceDispatch ----------------------------
(* Validates what processes of the real code did, each started with some set   *)
(* of CPU features:                                                            *)
(*   "start"  arch, feats                                                      *)
(*   "kernel" fn, needs: what the machine code of an assembly function uses    *)
(*   "mode"   pkg, mode: what a package reports                                *)
(*   "call"   pkg, fn, big, counted, entered: the assembly functions a call of *)
(*            a general function entered (known if counted); big: with input   *)
(*            enough for accelerated code                                      *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS TraceFile

(* the design part of SvbDispatch is not used here *)
D == INSTANCE SvbDispatch WITH Features <- {}, Needs <- <<>>, Policy <- "both", Cache <- "none",
       feats <- {}, decided <- <<>>, reported <- <<>>, log <- {}

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
Set(s) == {s[i] : i \in 1 .. Len(s)}

VARIABLES l, arch, feats, mode, needs, bad
vars == <<l, arch, feats, mode, needs, bad>>

Unknown == [p \in D!Packages |-> "?"]
Init == l = 1 /\ arch = "?" /\ feats = {} /\ mode = Unknown /\ needs = <<>> /\ bad = ""

Reject(why) == bad' = why /\ UNCHANGED <<l, arch, feats, mode, needs>>

Step ==
  /\ bad = "" /\ l <= N
  /\ LET e == Trace[l] IN
     CASE e.op = "start" ->
            /\ feats' = Set(e.feats) /\ arch' = e.arch /\ mode' = Unknown
            /\ l' = l + 1 /\ UNCHANGED <<needs, bad>>
       [] e.op = "kernel" ->
            needs' = (e.fn :> Set(e.needs)) @@ needs /\ l' = l + 1 /\ UNCHANGED <<arch, feats, mode, bad>>
       [] e.op = "mode" ->
            IF ~D!ModeOK(feats, e.mode) THEN Reject("accelerated code is not used although AVX and AVX2 are there")
            ELSE IF ~D!PortOK(arch, e.mode) THEN Reject("accelerated mode on a platform without accelerated code")
            ELSE IF ~D!StableOK(mode[e.pkg], e.mode) THEN Reject("reported mode changes")
            ELSE mode' = [mode EXCEPT ![e.pkg] = e.mode] /\ l' = l + 1 /\ UNCHANGED <<arch, feats, needs, bad>>
       [] e.op = "call" ->
            IF e.res # "ok" THEN Reject("call did not return: " \o e.res)
            ELSE IF ~e.counted THEN l' = l + 1 /\ UNCHANGED <<arch, feats, mode, needs, bad>>
            ELSE IF mode[e.pkg] = "?" \/ \E k \in Set(e.entered) : k \notin DOMAIN needs
            THEN Reject("contract: mode or kernel not known")
            ELSE IF \E k \in Set(e.entered) : ~D!EntryOK(feats, needs[k])
            THEN Reject("accelerated code entered that the CPU does not support")
            ELSE IF ~D!TruthOK(mode[e.pkg], e.entered # <<>>) THEN Reject("accelerated code entered in normal mode")
            ELSE IF ~D!UsedOK(mode[e.pkg], e.big, e.entered # <<>>) THEN Reject("accelerated code not entered in fast mode")
            ELSE l' = l + 1 /\ UNCHANGED <<arch, feats, mode, needs, bad>>
Done == l > N /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
===============================================================================
