----------------------------- MODULE SvbLoopsInd -----------------------------
(* SvbLoops for every count: an inductive invariant, checked by Apalache.      *)
(*   Init => Inv      Inv /\ Next => Inv'      Inv => the rules of the frame   *)
EXTENDS SvbLoops

InitAny == /\ count \in Nat
           /\ pc = "bulk" /\ ctrlPos = 0 /\ words = 0 /\ reach = 0 /\ bad = ""
           /\ room = 4 * count

Pcs == {"bulk", "pair", "tail", "done"}
Inv ==
  /\ bad = "" /\ pc \in Pcs /\ count >= 0
  /\ ctrlPos >= 0 /\ ctrlPos <= CtrlLen
  /\ words = Min(4 * ctrlPos, count)
  \* whole rounds of 32 only below the limit
  /\ pc = "bulk" => (ctrlPos % 2) = 0 /\ words = 4 * ctrlPos
                    /\ (IF (words % 32) = 0 THEN words = 0 \/ words <= Lowest32 ELSE (words - (words % 32)) + 32 <= Lowest32)
  /\ pc = "pair" => (ctrlPos % 2) = 0 /\ words = 4 * ctrlPos
  \* every word still to come has at least one byte, and at most four of room
  /\ Fn = "read" => reach <= count - words
  /\ Fn = "write" => room >= 4 * (count - words)
  /\ pc = "done" => ctrlPos = CtrlLen

Any == /\ count \in Nat /\ pc \in Pcs /\ ctrlPos \in Nat /\ words \in Nat /\ reach \in Int /\ room \in Int /\ bad = ""
       /\ Inv

Rules == InBounds /\ InStream /\ InResult /\ AllWords /\ InStep

Reads  == Fn = "read"  /\ Cautious = TRUE  /\ Sizes = 4 .. 16 /\ MaxCount = 0
Writes == Fn = "write" /\ Cautious = TRUE  /\ Sizes = 4 .. 16 /\ MaxCount = 0
Original == Fn = "read" /\ Cautious = FALSE /\ Sizes = 4 .. 16 /\ MaxCount = 0
==============================================================================
