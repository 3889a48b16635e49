------------------------------ MODULE TraceTables -----------------------------
(* Validates table contents and size helpers dumped from the real code.        *)
(*   what "numlen" | "ctrllen" | "encode" | "decode" | "size" : c, v           *)
(*   what "size2" : c = high control byte, v = the 256 results for low bytes   *)
(*   what "generate" : v = <<exit status of the repository's generators,       *)
(*                          generated files they did not write>>               *)
(*   what "same" : v a regenerated entry, w the shipped one                    *)
(*   of = "shipped" | "generated"                                              *)
EXTENDS SvbTables, TLC, Json

CONSTANTS TraceFile, Chunks

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)

VARIABLES l, end, bad
vars == <<l, end, bad>>
Bound(k) == (N * k) \div Chunks
Init == \E k \in 1 .. Chunks : l = Bound(k-1) + 1 /\ end = Bound(k) /\ bad = ""

Good(e) ==
  CASE e.what = "numlen"  -> e.v = NumLens(e.c)
    [] e.what = "ctrllen" -> e.v = <<CtrlSize(e.c)>>
    [] e.what = "size"    -> e.v = <<CtrlSize(e.c)>>
    [] e.what = "encode"  -> EncodeShuffleOK(e.c, e.v)
    [] e.what = "decode"  -> DecodeShuffleOK(e.c, e.v)
    [] e.what = "size2"   -> Len(e.v) = 256 /\ \A x \in 0 .. 255 : e.v[x+1] = SizeTwo(x, e.c)
    [] e.what = "generate" -> e.v = <<0, 0>>
    [] e.what = "same" -> e.v = e.w
    [] OTHER -> FALSE

Step == /\ bad = "" /\ l <= end
        /\ IF Good(Trace[l]) THEN l' = l + 1 /\ UNCHANGED <<end, bad>>
           ELSE bad' = Trace[l].of \o " " \o Trace[l].what \o " deviates from the format at " \o ToString(Trace[l].c)
                /\ UNCHANGED <<l, end>>
Done == l > end /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
===============================================================================
