------------------------------ MODULE SvbVarintMC -----------------------------
(* Laws of the varint codec, and an encoder and a decoder machine that walk a  *)
(* sequence one word at a time.                                                *)
EXTENDS SvbVarint, TLC

CONSTANTS Bytes, MaxN

Ws == {<<a, b, c, d>> : a \in Bytes, b \in Bytes, c \in Bytes, d \in Bytes}

VARIABLES in, enc, pos, out
vars == <<in, enc, pos, out>>

Init == in = <<>> /\ enc = <<>> /\ pos = 0 /\ out = <<>>
Encode == /\ pos = 0 /\ Len(in) < MaxN
          /\ \E w \in Ws : in' = Append(in, w) /\ enc' = enc \o VarintOf(w)
          /\ UNCHANGED <<pos, out>>
Decode == /\ pos < Len(enc)
          /\ out' = Append(out, VarintAt(enc, pos)) /\ pos' = pos + VarintLenAt(enc, pos)
          /\ UNCHANGED <<in, enc>>
Next == Encode \/ Decode
Spec == Init /\ [][Next]_vars

Typed     == \A i \in 1 .. Len(enc) : enc[i] \in 0 .. 255
Prefix    == out = SubSeq(in, 1, Len(out))                 \* what was decoded is what was encoded
Consumed  == pos = Len(enc) <=> Len(out) = Len(in)         \* all of the bytes, exactly
Whole     == enc = EncodeAll(in) /\ DecodeAll(enc, 0) = in
Minimal   == in # <<>> => LET w == in[Len(in)] IN
               /\ VLen(w) \in 1 .. 5
               /\ (VLen(w) > 1 => Sevens(w)[VLen(w)] # 0)  \* no shorter one ends in zero bits
               /\ \A k \in VLen(w) + 1 .. 5 : Sevens(w)[k] = 0
===============================================================================
