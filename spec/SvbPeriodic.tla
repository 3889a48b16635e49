------------------------------ MODULE SvbPeriodic -----------------------------
(* Sequences that repeat one block, and results given as runs [b, k] (the      *)
(* bytes b, k times): what calls far too large to be written out must return.  *)
(* SvbFormatMC checks that this is what the whole-stream definitions say.      *)
EXTENDS SvbFormat

RECURSIVE FlatP(_), WordsP(_, _), RunsOf(_)
FlatP(ws)     == IF ws = <<>> THEN <<>> ELSE Head(ws) \o FlatP(Tail(ws))
WordsP(m, n)  == IF n = 0 THEN <<>> ELSE WordsP(m, n-1) \o <<WordAt(m, n-1)>>

(* b k times, then the shorter rest t; in canonical form.                      *)
Runs(b, k, t) == (IF k = 0 \/ b = <<>> THEN <<>> ELSE <<[b |-> b, k |-> k]>>)
                 \o (IF t = <<>> THEN <<>> ELSE <<[b |-> t, k |-> 1]>>)

RECURSIVE Times(_, _)
Times(b, k) == IF k = 0 THEN <<>> ELSE b \o Times(b, k-1)
RunsOf(rs)  == IF rs = <<>> THEN <<>> ELSE Times(Head(rs).b, Head(rs).k) \o RunsOf(Tail(rs))

(* The block ws, its differences if its own last word is the base.             *)
Around(ws) == Deltas(ws, ws[Len(ws)])

(* Control and data bytes of ws repeated k times and its first t words.        *)
PeriodCtrl(ds, k, t) == LET s == SubSeq(ds, 1, t)
                        IN  Runs(CtrlPart(Len(ds), Encode(ds)), k, CtrlPart(t, Encode(s)))
PeriodData(ds, k, t) == LET s == SubSeq(ds, 1, t)
                        IN  Runs(DataPart(Len(ds), Encode(ds)), k, DataPart(t, Encode(s)))
(* The words that k repetitions of a decoded block and t more words are.       *)
PeriodWords(ws, k, t) == Runs(FlatP(ws), k, FlatP(SubSeq(ws, 1, t)))
===============================================================================
