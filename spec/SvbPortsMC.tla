------------------------------ MODULE SvbPortsMC ------------------------------
(* A package as files with build constraints.  It builds on a platform if every*)
(* function is declared exactly once there and every call has a declaration.   *)
(* The layout (common file, one file for the platforms with accelerated code,  *)
(* one for all the others, with complementary constraints) builds everywhere;  *)
(* Layout names it or a damaged one.                                           *)
EXTENDS Naturals, FiniteSets

CONSTANTS Layout, Archs, Accel     \* Accel \subseteq Archs: platforms with accelerated code

(* constraint (the set of platforms that take the file), declared, called *)
Common == [on |-> Archs,         has |-> {"general", "scalar"}, needs |-> {"mode", "fast"}]
Fast   == [on |-> Accel,         has |-> {"mode", "fast"},      needs |-> {"asm", "scalar"}]
Asm    == [on |-> Accel,         has |-> {"asm"},               needs |-> {}]
Base   == [on |-> Archs \ Accel, has |-> {"mode", "fast"},      needs |-> {}]

Files == CASE Layout = "good"         -> {Common, Fast, Asm, Base}
           [] Layout = "missing stub" -> {Common, Fast, Asm, [Base EXCEPT !.has = {"mode"}]}
           [] Layout = "overlap"      -> {Common, Fast, Asm, [Base EXCEPT !.on = Archs]}
           [] Layout = "gap"          -> {Common, Fast, Asm, [Base EXCEPT !.on = {CHOOSE a \in Archs \ Accel : TRUE}]}
           [] Layout = "asm"          -> {Common, [Fast EXCEPT !.on = Archs], Asm}

VARIABLE arch
Init == arch \in Archs
Next == UNCHANGED arch
Spec == Init /\ [][Next]_arch

Taken == {f \in Files : arch \in f.on}
Once  == \A d \in UNION {f.has : f \in Taken} : Cardinality({f \in Taken : d \in f.has}) = 1
Found == \A f \in Taken : f.needs \subseteq UNION {g.has : g \in Taken}
Same  == {"general", "scalar", "mode", "fast"} \subseteq UNION {f.has : f \in Taken}
===============================================================================
