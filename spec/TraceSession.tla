----------------------------- MODULE TraceSession -----------------------------
(* Validates recorded histories of the real code against SvbSession.  A        *)
(* history starts with a "start" event; histories are validated in parallel.   *)
(*   new    id, data          the caller made an object                        *)
(*   poke   id, off, data     the caller changed an object                     *)
(*   append id, data          the caller appended to an object                 *)
(*   drop   id                the caller forgot an object                      *)
(*   begin  c, call           a call began (arguments by reference)            *)
(*   end    c, res, out, ...  a call ended; out is its output slice then, or   *)
(*                            the stream it returned, which becomes object id  *)
(*   look   id, data          the caller looked at a whole object              *)
(*   race   text              two accesses raced                               *)
EXTENDS SvbSession, TLC, Json

CONSTANTS TraceFile

Trace == ndJsonDeserialize(TraceFile)
Starts == {k \in 1 .. Len(Trace) : Trace[k].op = "start"}

VARIABLES l, first, heap, open, bad
vars == <<l, first, heap, open, bad>>

Init == /\ first \in Starts /\ l = first
        /\ heap = <<>> /\ open = <<>> /\ bad = ""

AtEnd == IF l > Len(Trace) THEN TRUE ELSE l # first /\ Trace[l].op = "start"

Reject(why) == bad' = why /\ UNCHANGED <<l, first, heap, open>>
Go(h, o) == l' = l + 1 /\ heap' = h /\ open' = o /\ UNCHANGED <<first, bad>>

Has(id) == id \in DOMAIN heap
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Whole(id) == Region(id, 0, Len(heap[id]))

MayTouch(r) == \A k \in DOMAIN open : Untouched(open[k].call, r)
ValidCall(c) ==
  /\ Has(c.src) /\ c.soff + c.slen <= Len(heap[c.src])
  /\ c.kind # "write" => Has(c.dst) /\ c.doff + c.dlen <= Len(heap[c.dst])
  /\ ~Overlap(In(c), Out(c))
  /\ \A k \in DOMAIN open : Independent(c, open[k].call)

Begin(e) ==
  IF ~ValidCall(e.call) \/ e.c \in DOMAIN open THEN Reject("contract: call on unknown or busy memory")
  ELSE LET c == e.call
           b == IF c.kind = "write" THEN <<>> ELSE Bytes(heap, Out(c))
       IN  Go(heap, With(open, e.c, [call |-> c, input |-> Bytes(heap, In(c)), before |-> b]))

End(e) ==
  IF e.c \notin DOMAIN open THEN Reject("contract: end of an unknown call")
  ELSE LET o == open[e.c]
           c == [o.call EXCEPT !.ctrl = e.ctrl, !.ret = e.ret]
           s == [AsCall(c, o.input, e.out) EXCEPT !.words = IF Encodes(c) THEN o.input ELSE <<>>]
       IN  IF ~InContract(AsCall(c, o.input, e.out)) \/ ~Sufficient(s)
           THEN Reject("contract: call outside the specified domain")
           ELSE IF e.res # "ok" THEN Reject("call did not return: " \o e.res)
           ELSE IF c.kind # "write" /\ Len(e.out) # c.dlen THEN Reject("contract: output of another length")
           ELSE IF ~Effect(c, o.input, o.before, e.out)
           THEN Reject("result is not the one the arguments determine: " \o c.fn)
           ELSE IF c.kind = "write" THEN
                IF Has(e.id) THEN Reject("contract: id in use") ELSE Go(With(heap, e.id, e.out), Without(open, e.c))
           ELSE Go([heap EXCEPT ![c.dst] = Replace(@, c.doff, e.out)], Without(open, e.c))

Step ==
  /\ bad = "" /\ ~AtEnd
  /\ LET e == Trace[l] IN
     CASE e.op = "start" -> Go(<<>>, <<>>)
       [] e.op = "new"   -> IF Has(e.id) THEN Reject("contract: id in use") ELSE Go(With(heap, e.id, e.data), open)
       [] e.op = "poke"  -> IF ~Has(e.id) \/ ~MayTouch(Region(e.id, e.off, Len(e.data))) \/ e.off + Len(e.data) > Len(heap[e.id])
                            THEN Reject("contract: poke of busy memory")
                            ELSE Go([heap EXCEPT ![e.id] = Replace(@, e.off, e.data)], open)
       [] e.op = "append" -> IF ~Has(e.id) \/ ~MayTouch(Whole(e.id)) THEN Reject("contract: append to busy memory")
                             ELSE Go([heap EXCEPT ![e.id] = @ \o e.data], open)
       [] e.op = "drop"  -> IF ~Has(e.id) \/ ~MayTouch(Whole(e.id)) THEN Reject("contract: drop of busy memory")
                            ELSE Go(Without(heap, e.id), open)
       [] e.op = "begin" -> Begin(e)
       [] e.op = "end"   -> End(e)
       [] e.op = "look"  -> IF ~Has(e.id) \/ \E k \in DOMAIN open : Overlap(Whole(e.id), Out(open[k].call))
                            THEN Reject("contract: look at busy memory")
                            ELSE IF heap[e.id] # e.data THEN Reject("an object changed that no call or caller may have changed")
                            ELSE Go(heap, open)
       [] e.op = "race"  -> Reject("data race between independent calls")
       [] OTHER          -> Reject("contract: unknown event")

Done == AtEnd /\ bad = "" /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
===============================================================================
