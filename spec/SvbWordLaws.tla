----------------------------- MODULE SvbWordLaws -----------------------------
(* The algebra of words at the machine's own radix, for every pair of words:   *)
(* checked by Apalache (2^64 pairs, where TLC enumerates small radices).       *)
EXTENDS SvbWords
VARIABLES
  \* @type: Int;
  a1,
  \* @type: Int;
  a2,
  \* @type: Int;
  a3,
  \* @type: Int;
  a4,
  \* @type: Int;
  b1,
  \* @type: Int;
  b2,
  \* @type: Int;
  b3,
  \* @type: Int;
  b4

D(x) == 0 <= x /\ x < R
Init == /\ a1 \in Nat /\ a2 \in Nat /\ a3 \in Nat /\ a4 \in Nat /\ b1 \in Nat /\ b2 \in Nat /\ b3 \in Nat /\ b4 \in Nat
        /\ D(a1) /\ D(a2) /\ D(a3) /\ D(a4) /\ D(b1) /\ D(b2) /\ D(b3) /\ D(b4)
Next == UNCHANGED <<a1, a2, a3, a4, b1, b2, b3, b4>>
CInit == R = 256

\* @type: <<Int,Int,Int,Int>>;
V == <<a1, a2, a3, a4>>
\* @type: <<Int,Int,Int,Int>>;
P == <<b1, b2, b3, b4>>
\* @type: (<<Int,Int,Int,Int>>) => Bool;
IsWord(w) == D(w[1]) /\ D(w[2]) /\ D(w[3]) /\ D(w[4])
(* the word a reader rebuilds from the low sz bytes of w *)
\* @type: (<<Int,Int,Int,Int>>, Int) => <<Int,Int,Int,Int>>;
Seen(w, sz) == << w[1], IF sz > 1 THEN w[2] ELSE 0, IF sz > 2 THEN w[3] ELSE 0, IF sz > 3 THEN w[4] ELSE 0 >>

(* C04: a difference and its sum undo each other, both ways round.             *)
Inverse == IsWord(WSub(V, P)) /\ WAdd(WSub(V, P), P) = V /\ IsWord(WAdd(V, P)) /\ WSub(WAdd(V, P), P) = V
(* C01, C02: the bytes WLen keeps are enough, and one fewer is not.            *)
Stored  == /\ WLen(V) >= 1 /\ WLen(V) <= 4
           /\ Seen(V, WLen(V)) = V
           /\ WLen(V) > 1 => Seen(V, WLen(V) - 1) # V
(* C04: the running base of differential coding only depends on the words: the *)
(* order in which differences are added does not matter (prefix sums by        *)
(* doubling, as the vector kernels do).                                        *)
Commutes == WAdd(V, P) = WAdd(P, V)
==============================================================================
