------------------------------ MODULE SvbBenchMC ------------------------------
(* A model of the tool on tokens: it reads lines, reads the README, computes,  *)
(* and prints or writes.  Its result has everything outside the block intact,  *)
(* and a second run with the same input changes nothing.  Algo names the       *)
(* search for the end of the block: "after" the start, or "any"where (wrong).  *)
EXTENDS SvbBench, TLC

CONSTANTS Algo, MaxReadme, MaxLines

TStart == <<"H", "F">>
TFence == <<"E">>
TNL    == <<"n">>
TRule  == <<"-">>
TEnv   == [goos |-> <<"o">>, cpu |-> <<"c">>, pkg |-> <<"p">>]
TBench == <<"B">>

Symbols == {"H", "F", "E", "n", "x"}
LineSet == {<<"o">>, <<"c">>, <<"p">>, <<"B", "y">>, <<"z">>}

VARIABLES file, lines, write, phase, out, orig, runs
vars == <<file, lines, write, phase, out, orig, runs>>

Init == /\ file = <<>> /\ lines = <<>> /\ write \in BOOLEAN /\ phase = "readme" /\ out = <<>> /\ orig = <<>> /\ runs = 0

Grow == phase = "readme" /\ Len(file) < MaxReadme
        /\ \E s \in Symbols : file' = Append(file, s) /\ UNCHANGED <<lines, write, phase, out, orig, runs>>
Begin == phase = "readme" /\ HasSection(file) /\ phase' = "input" /\ orig' = file /\ UNCHANGED <<file, lines, write, out, runs>>
Input == phase = "input" /\ Len(lines) < MaxLines
         /\ \E l \in LineSet : lines' = Append(lines, l) /\ UNCHANGED <<file, write, phase, out, orig, runs>>

Made(f) == LET s == Find(f, Start, 1)
               b == s + Len(Start)
               r == IF Algo = "after" THEN Find(f, Fence, b) ELSE Find(f, Fence, 1)
           IN  SubSeq(f, 1, b - 1) \o Text(Body(<<>>, FALSE, lines)) \o SubSeq(f, r, Len(f))
Run == /\ phase \in {"input", "ran"} /\ lines # <<>> /\ runs < 2
       /\ phase' = "ran" /\ runs' = runs + 1
       /\ IF write THEN file' = Made(file) /\ UNCHANGED out ELSE out' = Made(file) /\ UNCHANGED file
       /\ UNCHANGED <<lines, write, orig>>

Next == Grow \/ Begin \/ Input \/ Run
Spec == Init /\ [][Next]_vars

Ran == phase = "ran"
Final == IF write THEN file ELSE out
Exact == Ran => Final = Result(orig, lines)       \* also after the second run
OnlyWhenAsked == (Ran /\ ~write) => file = orig
(* What the definition promises, stated without it. *)
Kept == Ran =>
  \E b, r \in Len(Start) + 1 .. Len(orig) :
     LET rest == Len(orig) - r + 1 IN
       /\ b <= r /\ At(orig, b - Len(Start), Start) /\ At(orig, r, Fence)
       /\ \A k \in b .. r - 1 : ~At(orig, k, Fence)                              \* only the body is gone
       /\ Len(Final) >= b - 1 + rest
       /\ SubSeq(orig, 1, b - 1) = SubSeq(Final, 1, b - 1)                        \* before, with the opening
       /\ SubSeq(orig, r, Len(orig)) = SubSeq(Final, Len(Final) - rest + 1, Len(Final))
===============================================================================
