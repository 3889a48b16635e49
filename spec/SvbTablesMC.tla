------------------------------ MODULE SvbTablesMC -----------------------------
(* The table specification against the format: shuffling four words with a     *)
(* permutation that satisfies EncodeShuffleOK gives the bytes the format wants *)
(* and the decode shuffle gives the words back.  The canonical tables satisfy  *)
(* the specification, and damaging an entry that matters violates it.          *)
EXTENDS SvbTables, TLC

CONSTANT Sources    \* what a damaged entry may point to, of 0 .. 15

VARIABLES c, i, e, d
vars == <<c, i, e, d>>

EncodeEntry(x) == [j \in 1 .. 16 |-> IF j <= CtrlSize(x) THEN PackAt(x, j - 1) ELSE 255]
DecodeEntry(x) == [j \in 1 .. 16 |-> LET k == (j-1) \div 4  b == (j-1) % 4
                                     IN IF b < Size(x, k) THEN OffsetIn(x, k) + b ELSE 255]

Init == c \in 0 .. 255 /\ i \in 0 .. 16 /\ e = EncodeEntry(c) /\ d = DecodeEntry(c)

(* Change entry i of both to every other source. *)
Damage == /\ i > 0 /\ e = EncodeEntry(c) /\ d = DecodeEntry(c)
          /\ \E x \in Sources : x # e[i] /\ x # d[i]
                /\ e' = [e EXCEPT ![i] = x] /\ d' = [d EXCEPT ![i] = x]
          /\ UNCHANGED <<c, i>>
Next == Damage
Spec == Init /\ [][Next]_vars

Intact == e = EncodeEntry(c)
Src == <<17, 18, 19, 20, 33, 34, 35, 36, 49, 50, 51, 52, 65, 66, 67, 68>>
Group0 == <<SubSeq(Src, 1, 4), SubSeq(Src, 5, 8), SubSeq(Src, 9, 12), SubSeq(Src, 13, 16)>>
Cut(w, n) == [j \in 1 .. 4 |-> IF j <= n THEN w[j] ELSE 0]

Accepts == Intact => EncodeShuffleOK(c, e) /\ DecodeShuffleOK(c, d)
Packs   == EncodeShuffleOK(c, e) =>
             SubSeq(Shuffle(Src, e), 1, CtrlSize(c))
               = SubSeq(Group0[1], 1, Size(c, 0)) \o SubSeq(Group0[2], 1, Size(c, 1))
                 \o SubSeq(Group0[3], 1, Size(c, 2)) \o SubSeq(Group0[4], 1, Size(c, 3))
Unpacks == (EncodeShuffleOK(c, e) /\ DecodeShuffleOK(c, d)) =>
             Shuffle(Shuffle(Src, e), d) = Cut(Group0[1], Size(c, 0)) \o Cut(Group0[2], Size(c, 1))
                                           \o Cut(Group0[3], Size(c, 2)) \o Cut(Group0[4], Size(c, 3))
Rejects == (~Intact /\ i > 0) => /\ (i <= CtrlSize(c) => ~EncodeShuffleOK(c, e))
                                 /\ ~DecodeShuffleOK(c, d)
===============================================================================
