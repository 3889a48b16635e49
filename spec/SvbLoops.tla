------------------------------- MODULE SvbLoops -------------------------------
(* The loop structure of the accelerated stream functions, with the memory     *)
(* their unchecked 16-byte loads and stores touch.  Words are abstracted to    *)
(* the number of data bytes their group takes, chosen when the group is        *)
(* processed, so every stream of every shape is covered.                       *)
(*                                                                             *)
(* Fn "read":  reach is how far beyond the current data position loads have    *)
(*   already gone; the groups still to come must have that many bytes.         *)
(* Fn "write": room is what is left of the worst-case allocation.              *)
(* Cautious = FALSE is the original bound of the readers' loops, which counted *)
(* a trailing partial group as if it held 16 bytes.                            *)
EXTENDS Naturals, Integers

CONSTANTS
  \* @type: Int;
  MaxCount,
  \* @type: Str;
  Fn,
  \* @type: Bool;
  Cautious,
  \* @type: Set(Int);
  Sizes

VARIABLES
  \* @type: Int;
  count,   \* words of the call
  \* @type: Str;
  pc,      \* "bulk" (32 words), "pair" (8 words), "tail" (a group), "done"
  \* @type: Int;
  ctrlPos, \* control bytes processed
  \* @type: Int;
  words,   \* words processed
  \* @type: Int;
  reach,
  \* @type: Int;
  room,
  \* @type: Str;
  bad      \* a rule of the frame that was broken
vars == <<count, pc, ctrlPos, words, reach, room, bad>>

Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF a < b THEN a ELSE b
CtrlLen == (count + 3) \div 4
Full    == IF Fn = "read" /\ Cautious THEN count \div 4 ELSE CtrlLen
(* ((Full - 3) * 4) &^ 31, rounding down also below zero *)
Lowest32 == (((Full - 3) * 4) \div 32) * 32
PairEnd  == IF Fn = "read" THEN Full - 4 ELSE CtrlLen - 2

Init == /\ count \in 0 .. MaxCount
        /\ pc = "bulk" /\ ctrlPos = 0 /\ words = 0 /\ reach = 0 /\ bad = ""
        /\ room = 4 * count

(* A kernel processes two groups of sizes a and b at the current position: two *)
(* 16-byte accesses of the data, eight words, two control bytes.               *)
Kernel(a, b, next) ==
  /\ bad' = IF words + 8 > count THEN "words outside the slice"
            ELSE IF ctrlPos + 2 > CtrlLen THEN "control bytes outside the stream"
            ELSE IF Fn = "write" /\ a + 16 > room THEN "store behind the allocation"
            ELSE ""
  /\ reach' = (IF Fn = "read" THEN Max(reach, a + 16) - (a + b) ELSE 0)
  /\ room' = (IF Fn = "write" THEN room - (a + b) ELSE room)
  /\ ctrlPos' = ctrlPos + 2 /\ words' = words + 8 /\ pc' = next
  /\ UNCHANGED count

Bulk == /\ pc = "bulk"
        /\ IF words < Lowest32 \/ (words % 32) # 0
           THEN \E a, b \in Sizes : Kernel(a, b, "bulk")
           ELSE pc' = "pair" /\ UNCHANGED <<count, ctrlPos, words, reach, room, bad>>

Pair == /\ pc = "pair"
        /\ IF ctrlPos < PairEnd
           THEN \E a, b \in Sizes : Kernel(a, b, "pair")
           ELSE pc' = "tail" /\ UNCHANGED <<count, ctrlPos, words, reach, room, bad>>

(* The tail is bounds-checked and touches exactly the group's bytes. *)
Tail == /\ pc = "tail"
        /\ IF ctrlPos < CtrlLen
           THEN LET m == Min(4, count - words) IN
                \E s \in (IF m = 4 THEN Sizes ELSE {m, 4*m}) :
                  /\ bad' = IF m < 1 THEN "control byte without words" ELSE ""
                  /\ reach' = (IF Fn = "read" THEN Max(reach - s, -16) ELSE 0)   \* capped: further below changes nothing
                  /\ room' = (IF Fn = "write" THEN room - s ELSE room)
                  /\ ctrlPos' = ctrlPos + 1 /\ words' = words + m
                  /\ UNCHANGED <<count, pc>>
           ELSE pc' = "done" /\ UNCHANGED <<count, ctrlPos, words, reach, room, bad>>

Done == pc = "done" /\ UNCHANGED vars
Next == bad = "" /\ (Bulk \/ Pair \/ Tail \/ Done)
Spec == Init /\ [][Next]_vars

(* C06, C07: no access outside the slices ... *)
InBounds == bad = ""
InStream == (pc = "done" /\ Fn = "read") => reach <= 0
InResult == Fn = "write" => room >= 0
(* ... and every word and control byte is processed, once and in step. *)
AllWords == pc = "done" => words = count /\ ctrlPos = CtrlLen
InStep   == words = Min(4 * ctrlPos, count)
===============================================================================
