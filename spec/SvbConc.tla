-------------------------------- MODULE SvbConc --------------------------------
(* Why results depend only on arguments: calls as small steps over shared      *)
(* memory, in every interleaving, with a caller that changes its own buffers   *)
(* between calls and appends to results it owns.                               *)
(*                                                                             *)
(* Impl "pure" keeps all of a call's state in the call, and gives every result *)
(* memory of its own.  The other values are the ways to get it wrong that the  *)
(* trace specification has to be able to tell apart from "pure":               *)
(*   "scratch"  the running base lives in the package                          *)
(*   "memo"     results are remembered by the identity of the input slice      *)
(*   "arena"    results are cut from one array, one after the other            *)
EXTENDS SvbFormat, TLC

CONSTANTS Procs, Impl, MaxCalls, Contents

VARIABLES buf,     \* the shared input: a sequence of words
          call,    \* per process: the running call or NoCall
          results, \* finished results: [want, got by reference]
          mem,     \* memory of the results: sequence of arrays
          base,    \* package-level running base ("scratch")
          memo,    \* package-level memory of results ("memo")
          calls
vars == <<buf, call, results, mem, base, memo, calls>>

NoCall == [on |-> FALSE]

Init == /\ buf \in Contents
        /\ call = [p \in Procs |-> NoCall]
        /\ results = <<>> /\ mem = <<>>
        /\ base = Zero /\ memo = <<>> /\ calls = 0

Want(ws, b) == DataOf(Deltas(ws, b))

Begin(p) ==
  /\ ~call[p].on /\ calls < MaxCalls
  /\ \E b \in {Zero, <<1, 0, 0, 0>>} :
       /\ call' = [call EXCEPT ![p] = [on |-> TRUE, i |-> 1, prev |-> b, args |-> buf, b |-> b, out |-> <<>>]]
       /\ base' = b
  /\ calls' = calls + 1
  /\ UNCHANGED <<buf, results, mem, memo>>

(* One word is coded per step. *)
Prev(p) == IF Impl = "scratch" THEN base ELSE call[p].prev
Step(p) ==
  /\ call[p].on /\ call[p].i <= Len(buf)
  /\ LET v == buf[call[p].i]
         d == WSub(v, Prev(p))
     IN  /\ call' = [call EXCEPT ![p].out = @ \o SubSeq(d, 1, WLen(d)), ![p].i = @ + 1, ![p].prev = v]
         /\ base' = v
  /\ UNCHANGED <<buf, results, mem, memo, calls>>

End(p) ==
  /\ call[p].on /\ call[p].i > Len(buf)
  /\ LET key == <<Len(buf), call[p].b>>    \* the slice's identity: same memory, same length
         hit == Impl = "memo" /\ \E k \in 1 .. Len(memo) : memo[k][1] = key
         out == IF hit THEN memo[CHOOSE k \in 1 .. Len(memo) : memo[k][1] = key][2] ELSE call[p].out
         at  == IF Impl = "arena" THEN 1 ELSE Len(mem) + 1
         off == IF Impl = "arena" /\ mem # <<>> THEN Len(mem[1]) ELSE 0
     IN  /\ mem' = IF Impl = "arena" /\ mem # <<>> THEN [mem EXCEPT ![1] = @ \o out] ELSE Append(mem, out)
         /\ results' = Append(results, [want |-> Want(call[p].args, call[p].b), at |-> at, off |-> off, len |-> Len(out)])
         /\ memo' = IF Impl = "memo" /\ ~hit THEN Append(memo, <<key, out>>) ELSE memo
  /\ call' = [call EXCEPT ![p] = NoCall]
  /\ UNCHANGED <<buf, base, calls>>

(* The caller changes its buffer while no call uses it. *)
Poke == /\ \A p \in Procs : ~call[p].on
        /\ calls < MaxCalls
        /\ \E c \in Contents : buf' = c
        /\ UNCHANGED <<call, results, mem, base, memo, calls>>

(* The caller appends a digit to a result: in place if the array goes on.      *)
AppendTo(k) ==
  /\ results[k].len = Len(results[k].want)
  /\ LET r == results[k] IN
       /\ mem' = IF r.off + r.len < Len(mem[r.at]) THEN [mem EXCEPT ![r.at][r.off + r.len + 1] = 0]
                 ELSE Append(mem, <<>>)
       /\ results' = [results EXCEPT ![k].want = @ \o <<0>>]  \* so that it happens once; the result keeps its first len digits
  /\ UNCHANGED <<buf, call, base, memo, calls>>

Next == \/ \E p \in Procs : Begin(p) \/ Step(p) \/ End(p)
        \/ Poke
        \/ \E k \in 1 .. Len(results) : AppendTo(k)
Spec == Init /\ [][Next]_vars

Got(r) == SubSeq(mem[r.at], r.off + 1, r.off + r.len)
(* Every result is and stays what its call's arguments determined. *)
Pure == \A k \in 1 .. Len(results) :
          LET r == results[k] IN Len(r.want) - r.len \in {0, 1} /\ Got(r) = SubSeq(r.want, 1, r.len)

C2 == { << <<1,0,0,0>>, <<0,1,0,1>> >>, << <<1,1,0,0>>, <<0,0,0,0>> >> }
===============================================================================
