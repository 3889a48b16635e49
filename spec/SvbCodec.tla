------------------------------- MODULE SvbCodec -------------------------------
(* What one call of a stream or block function must do, as a machine that      *)
(* walks the call's groups of four words.                                      *)
(*                                                                             *)
(* A call is a record                                                          *)
(*   kind   "write" | "read"  (stream functions)   "put" | "get"  (blocks)     *)
(*   shape  "stream" | "8" | "4" | "upto4"                                     *)
(*   impl   "scalar" | "fast" | "auto"                                         *)
(*   delta  differential coding?         prev   its base (a word)              *)
(*   count  the count argument (upto4, read) or the number of words (write)    *)
(*   words  memory image of the words: the input of write/put, and what        *)
(*          read/get left in the first n elements of the output                *)
(*   wlen   length of the word slice that was passed                           *)
(*   bytes  the stream, or a block's data: the input of read/get, and what     *)
(*          write/put produced                                                 *)
(*   ctrl   the control bytes of a block (of a stream they are in bytes)       *)
(*   ret    consumed byte count returned by a counted get, else -1             *)
(*   res    "ok" | "panic" | "fault" | "hang"                                  *)
(*   chg    every memory location, other than the result, that differs after   *)
(*          the call: <<region, offset in bytes>>.  Regions: "in", "out" (the  *)
(*          slices), "around" (anything near them) and "alias" (a result that  *)
(*          shares memory with the input)                                      *)
(*   unw    indices of result words the call did not write                     *)
(* The machine's state: g, the next group; pos, the offset of its data; prev,  *)
(* the running base of differential coding.                                    *)
EXTENDS SvbFormat

IsStream(e) == e.shape = "stream"
Encodes(e)  == e.kind \in {"write", "put"}

(* Number of words the call denotes. *)
NWords(e) == CASE e.shape = "8" -> 8
               [] e.shape = "4" -> 4
               [] e.shape = "upto4" -> Min2(4, e.count)
               [] OTHER -> e.count

Groups(e) == CtrlLen(NWords(e))
DataStart(e) == IF IsStream(e) THEN Groups(e) ELSE 0
CtrlByte(e, g) == IF IsStream(e) THEN e.bytes[g+1] ELSE e.ctrl[g+1]

(* The unchecked block functions only promise anything for whole blocks with   *)
(* worst-case room (4 bytes per word).                                         *)
Unchecked(e) == e.shape = "8" /\ e.impl # "scalar"
InContract(e) ==
  /\ Unchecked(e) => /\ e.wlen >= 8
                     /\ Len(e.bytes) >= 32
  /\ e.kind = "read" => e.wlen >= e.count
  /\ e.count >= 0

(* Frame condition: what a call may change besides its result.                 *)
MayChange(e, used) ==
  \A i \in 1 .. Len(e.chg) :
     LET c == e.chg[i] IN
       CASE e.kind = "put"  -> c[1] = "out" /\ c[2] < (IF Unchecked(e) THEN 32 ELSE used)
         [] e.kind \in {"get", "read"} -> c[1] = "out" /\ c[2] < 4 * NWords(e)
         [] OTHER -> FALSE

(* After a refused call the output slice may hold anything.                    *)
MayChangeOnPanic(e) ==
  \A i \in 1 .. Len(e.chg) : e.kind # "write" /\ e.chg[i][1] = "out"

(* --- one group ------------------------------------------------------------- *)
(* The k-th word (from 0) of group g as the caller sees it (v), and as the     *)
(* format stores it (d).                                                       *)
V(e, g, k) == WordAt(e.words, 4*g + k)
Stored(e, g, k, p) ==
  IF e.delta THEN WSub(V(e, g, k), IF k = 0 THEN p ELSE V(e, g, k-1)) ELSE V(e, g, k)

(* Encoding: the control byte and the bytes are the canonical ones.            *)
EncGroupCtrl(e, g, p) ==
  LET m == InGroup(NWords(e), g)
  IN  CtrlOf([k \in 1 .. m |-> Stored(e, g, k-1, p)])

EncGroupOK(e, g, pos, p) ==
  LET m == InGroup(NWords(e), g)
      c == EncGroupCtrl(e, g, p)
  IN  /\ CtrlByte(e, g) = c
      /\ \A k \in 0 .. m-1 :
           LET d == Stored(e, g, k, p)
               o == pos + OffsetIn(c, k)
           IN  \A j \in 1 .. Size(c, k) : e.bytes[o + j] = d[j]

(* Decoding: whatever the control byte says.                                   *)
DecGroupOK(e, g, pos, p) ==
  LET m == InGroup(NWords(e), g)
      c == CtrlByte(e, g)
      D(k) == WordFrom(e.bytes, pos + OffsetIn(c, k), Size(c, k))
  IN  \A k \in 0 .. m-1 :
        V(e, g, k) = IF e.delta THEN WAdd(D(k), IF k = 0 THEN p ELSE V(e, g, k-1))
                                ELSE D(k)

(* Bytes group g needs from offset pos on; are they there?                     *)
Need(e, g, p) ==
  GroupBytes(IF Encodes(e) THEN EncGroupCtrl(e, g, p) ELSE CtrlByte(e, g), InGroup(NWords(e), g))

(* Enough room or data for the call to have a result at all, as far as it can  *)
(* be told before the first group.  (write allocates its own result.)          *)
StartSufficient(e) ==
  CASE e.kind = "write" -> TRUE
    [] e.kind = "read"  -> Len(e.bytes) >= Groups(e)
    [] OTHER            -> e.wlen >= NWords(e)
GroupSufficient(e, g, pos, p) ==
  IF e.kind = "write" THEN TRUE ELSE pos + Need(e, g, p) <= Len(e.bytes)

(* A stream writer's result must be long enough before it can be compared.     *)
ResultStartOK(e)  == e.kind = "write" => Len(e.bytes) >= Groups(e)
ResultGroupOK(e, g, pos, p) == e.kind = "write" => pos + Need(e, g, p) <= Len(e.bytes)

GroupOK(e, g, pos, p) ==
  /\ ResultGroupOK(e, g, pos, p)
  /\ IF Encodes(e) THEN EncGroupOK(e, g, pos, p) ELSE DecGroupOK(e, g, pos, p)

LastWord(e, g) == V(e, g, InGroup(NWords(e), g) - 1)

(* After the last group. *)
EndOK(e, pos) ==
  /\ e.kind = "write" => pos = Len(e.bytes)
  /\ (e.kind = "put" /\ NWords(e) = 0) => e.ctrl = <<0>>
  /\ (e.kind = "get" /\ e.shape = "upto4") => e.ret = pos

(* --- the machine as one predicate ------------------------------------------ *)
(* What the walk of TraceCodec decides, for use on small calls: the call has   *)
(* enough data and room; and its result is the right one.                      *)
RECURSIVE SufficientFrom(_, _, _, _)
SufficientFrom(e, g, pos, p) ==
  \/ g = Groups(e)
  \/ /\ GroupSufficient(e, g, pos, p)
     /\ SufficientFrom(e, g+1, pos + Need(e, g, p), IF Encodes(e) THEN LastWord(e, g) ELSE p)
Sufficient(e) == StartSufficient(e) /\ SufficientFrom(e, 0, DataStart(e), e.prev)

RECURSIVE RightFrom(_, _, _, _)
RightFrom(e, g, pos, p) ==
  IF g = Groups(e) THEN EndOK(e, pos)
  ELSE GroupOK(e, g, pos, p) /\ RightFrom(e, g+1, pos + Need(e, g, p), LastWord(e, g))
Right(e) == ResultStartOK(e) /\ RightFrom(e, 0, DataStart(e), e.prev)
===============================================================================
