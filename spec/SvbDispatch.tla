------------------------------ MODULE SvbDispatch -----------------------------
(* Which code runs: a process starts on a CPU with some set of features, each  *)
(* package reports a mode, and calls of general functions either enter         *)
(* accelerated kernels or do not.                                              *)
EXTENDS Naturals, FiniteSets, Sequences

Packages == {"encode", "decode"}
Enough   == {"avx", "avx2"}            \* with these accelerated code is used

(* The rules, on what can be observed of one process.                          *)
(* needs(k): the extensions kernel k uses.                                     *)
ModeOK(feats, m)        == Enough \subseteq feats => m = "fast"
PortOK(arch, m)         == arch = "amd64" \/ m = "normal"      \* other platforms have no accelerated code
StableOK(before, m)     == before = "?" \/ before = m
EntryOK(feats, needs)   == needs \subseteq feats
TruthOK(m, entered)     == entered => m = "fast"
UsedOK(m, big, entered) == (m = "fast" /\ big) => entered

(* --- a design of the dispatch, for model checking ---------------------------*)
CONSTANTS Features,  \* features CPUs may have
          Needs,     \* kernel -> extensions
          Policy,    \* how a package decides: see Decide
          Cache      \* "none": decided at every call; "first": at the first call of a general function, "normal" being
                     \* reported until then; "split": the stream functions decide on their own by avx alone

VARIABLES feats, decided, reported, log
vars == <<feats, decided, reported, log>>

Decide(f) == CASE Policy = "both"   -> Enough \subseteq f
               [] Policy = "either" -> Enough \cap f # {}
               [] Policy = "avx"    -> "avx" \in f
               [] Policy = "avx2"   -> "avx2" \in f
               [] Policy = "bmi2"   -> Enough \cup {"bmi2"} \subseteq f
               [] Policy = "always" -> TRUE
               [] Policy = "never"  -> FALSE
ModeOf(f) == IF Decide(f) THEN "fast" ELSE "normal"

Init == /\ feats \in SUBSET Features
        /\ decided = [p \in Packages |-> FALSE] /\ reported = [p \in Packages |-> "?"] /\ log = {}

Current(p) == IF Cache = "first" /\ ~decided[p] THEN "normal" ELSE ModeOf(feats)
GetMode(p) == /\ log' = log \cup {[what |-> "mode", p |-> p, m |-> Current(p), before |-> reported[p]]}
              /\ reported' = [reported EXCEPT ![p] = Current(p)]
              /\ UNCHANGED <<feats, decided>>
Call(p, stream, k) ==
  LET m == IF Cache = "split" /\ stream THEN (IF "avx" \in feats THEN "fast" ELSE "normal") ELSE ModeOf(feats)
  IN  /\ decided' = [decided EXCEPT ![p] = TRUE]
      /\ log' = log \cup {[what |-> "call", p |-> p, entered |-> m = "fast", k |-> k, m |-> reported[p]]}
      /\ UNCHANGED <<feats, reported>>
Next == \E p \in Packages : GetMode(p) \/ \E s \in BOOLEAN, k \in DOMAIN Needs : Call(p, s, k)
Spec == Init /\ [][Next]_vars

Supported == \A e \in log : (e.what = "call" /\ e.entered) => EntryOK(feats, Needs[e.k])
Used      == \A e \in log : e.what = "mode" => ModeOK(feats, e.m)
Stable    == \A e \in log : e.what = "mode" => StableOK(e.before, e.m)
Truthful  == \A e \in log : (e.what = "call" /\ e.m # "?") => TruthOK(e.m, e.entered) /\ UsedOK(e.m, TRUE, e.entered)
===============================================================================
