----------------------------- MODULE SvbHistories -----------------------------
(* Makes histories: TLC simulates this specification and prints each behaviour *)
(* as a plan, which the driver carries out on the real code; what then         *)
(* happened is validated by TraceSession.  A plan says which objects a step    *)
(* involves; the driver fills in values by the step's style and seed.          *)
(* Pick is PickOne in simulation and PickAll when the rules are model checked. *)
EXTENDS SvbSession, FiniteSets, TLC, Json

CONSTANTS Depth, NBuf, BufWords, ByteLen, MaxOpen, Pick(_), Counts, Offs, Styles, Ctrls

ManyCounts == {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64}
ManyOffs   == {0, 1, 4, 7}
ManyStyles == 0 .. 36     \* from 32 on: words rearranged, not replaced
ManyCtrls  == {0, 27, 228, 6882, 65535, 43690, 58596}

VARIABLES hist,    \* the plan so far
          open,    \* calls that have begun: c -> [src, soff, slen, dst, doff, dlen, kind]
          streams, \* number of words of each stream returned so far, in the order the calls ended
          gone,    \* streams the caller dropped
          next     \* next call number
vars == <<hist, open, streams, gone, next>>

PickOne(S) == {RandomElement(IF next > 0 THEN S ELSE {})}   \* not a constant
PickAll(S) == S

Bufs  == 1 .. NBuf          \* word slices of BufWords words
BytesId == NBuf + 1         \* a byte slice of ByteLen bytes
StreamId(s) == NBuf + 1 + s
Big == 1000000              \* a stream's region: all of it

Init == hist = <<>> /\ open = <<>> /\ streams = <<>> /\ gone = {} /\ next = 1

Log(op) == hist' = Append(hist, op)
Free(r) == \A k \in DOMAIN open : Untouched(open[k], r)
CanBegin(c) == /\ Cardinality(DOMAIN open) < MaxOpen
               /\ Len(hist) + Cardinality(DOMAIN open) + 2 <= Depth
               /\ ~Overlap(In(c), Out(c))
               /\ \A k \in DOMAIN open : Independent(c, open[k])
StartCall(c, op) ==
  /\ CanBegin(c)
  /\ open' = [x \in DOMAIN open \cup {next} |-> IF x = next THEN c ELSE open[x]]
  /\ next' = next + 1
  /\ Log(op)
  /\ UNCHANGED <<streams, gone>>

Bases == 0 .. 3
Impls == 0 .. 2
Live  == (1 .. Len(streams)) \ gone
Room  == Len(hist) + Cardinality(DOMAIN open) + 1 <= Depth

Poke == Room /\ \E b \in Pick(Bufs), off \in Pick(Offs), n \in Pick({1, 4, 17, BufWords - 7}), st \in Pick(Styles) :
          /\ off + n <= BufWords
          /\ Free(Region(b, 4*off, 4*n))
          /\ Log([op |-> "poke", b |-> b, off |-> off, n |-> n, style |-> st])
          /\ UNCHANGED <<open, streams, gone, next>>

PokeBytes == Room /\ \E off \in Pick({0, 16, 32}), st \in Pick(Styles) :
          /\ off + 32 <= ByteLen
          /\ Free(Region(BytesId, off, 32))
          /\ Log([op |-> "pokebytes", off |-> off, n |-> 32, style |-> st])
          /\ UNCHANGED <<open, streams, gone, next>>

Write == \E b \in Pick(Bufs), off \in Pick(Offs), n \in Pick(Counts), d \in Pick(BOOLEAN), i \in Pick(Impls), p \in Pick(Bases) :
          /\ off + n <= BufWords
          /\ StartCall([kind |-> "write", src |-> b, soff |-> 4*off, slen |-> 4*n, dst |-> 0, doff |-> 0, dlen |-> 0, n |-> n],
                       [op |-> "write", c |-> next, b |-> b, off |-> off, n |-> n, delta |-> d, impl |-> i, base |-> p])

Read == Live # {} /\ \E s \in Pick(Live), b \in Pick(Bufs), off \in Pick(Offs), d \in Pick(BOOLEAN), i \in Pick(Impls), p \in Pick(Bases), x \in Pick({0, 3}) :
          /\ off + streams[s] + x <= BufWords
          /\ StartCall([kind |-> "read", src |-> StreamId(s), soff |-> 0, slen |-> Big, dst |-> b, doff |-> 4*off, dlen |-> 4*(streams[s] + x), n |-> 0],
                       [op |-> "read", c |-> next, s |-> s, b |-> b, off |-> off, n |-> streams[s], more |-> x, delta |-> d, impl |-> i, base |-> p])

Shapes == {8, 4, 3, 1, 0}
Put == \E b \in Pick(Bufs), off \in Pick(Offs), sh \in Pick(Shapes), o \in Pick({0, 16, 32, 64}), d \in Pick(BOOLEAN), i \in Pick(Impls), p \in Pick(Bases) :
          /\ o + 32 <= ByteLen /\ off + sh <= BufWords
          /\ StartCall([kind |-> "put", src |-> b, soff |-> 4*off, slen |-> 4*sh, dst |-> BytesId, doff |-> o, dlen |-> 32, n |-> sh],
                       [op |-> "put", c |-> next, b |-> b, off |-> off, n |-> sh, o |-> o, delta |-> d, impl |-> i, base |-> p])

Get == \E b \in Pick(Bufs), off \in Pick(Offs), sh \in Pick(Shapes), o \in Pick({0, 16, 32, 64}), d \in Pick(BOOLEAN), i \in Pick(Impls), p \in Pick(Bases), ct \in Pick(Ctrls) :
          /\ o + 32 <= ByteLen /\ off + sh <= BufWords
          /\ StartCall([kind |-> "get", src |-> BytesId, soff |-> o, slen |-> 32, dst |-> b, doff |-> 4*off, dlen |-> 4*sh, n |-> sh],
                       [op |-> "get", c |-> next, b |-> b, off |-> off, n |-> sh, o |-> o, delta |-> d, impl |-> i, base |-> p, ctrl |-> ct])

End == \E k \in Pick(DOMAIN open) :
          /\ open' = [x \in DOMAIN open \ {k} |-> open[x]]
          /\ streams' = IF open[k].kind = "write" THEN Append(streams, open[k].n) ELSE streams
          /\ Log([op |-> "end", c |-> k])
          /\ UNCHANGED <<gone, next>>

(* The caller changes a result it owns: data bytes in place, or more at the    *)
(* end; or it forgets the result.                                              *)
Scribble == Room /\ Live # {} /\ \E s \in Pick(Live), how \in Pick({"append", "scribble", "drop"}), k \in Pick({1, 9}) :
          /\ Free(Region(StreamId(s), 0, Big))
          /\ Log([op |-> how, s |-> s, n |-> k])
          /\ gone' = IF how = "drop" THEN gone \cup {s} ELSE gone
          /\ UNCHANGED <<open, streams, next>>

Next == Poke \/ PokeBytes \/ Write \/ Read \/ Put \/ Get \/ Scribble \/ (DOMAIN open # {} /\ End)
Spec == Init /\ [][Next]_vars

(* The rules the driver relies on, model checked on small instances. *)
NoOverlap == \A j, k \in DOMAIN open : j # k => Independent(open[j], open[k])
Closable  == Len(hist) + Cardinality(DOMAIN open) <= Depth

Seen == <<open, streams, gone, Len(hist)>>   \* all that matters to the rules

(* Prints a finished plan (simulation only). *)
Emit == (Len(hist) = Depth /\ open = <<>>) => PrintT("PLAN " \o ToJson(hist))
===============================================================================
