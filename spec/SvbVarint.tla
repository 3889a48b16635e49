------------------------------- MODULE SvbVarint ------------------------------
(* The varint baseline codec: 7 bits per byte, lowest first, the top bit of a  *)
(* byte saying that more follow.  Words are 4 little-endian bytes (R = 256).   *)
EXTENDS SvbWords, FiniteSets

(* The five 7-bit groups of a word. *)
Sevens(w) ==
  << w[1] % 128,
     (w[1] \div 128) + 2 * (w[2] % 64),
     (w[2] \div 64)  + 4 * (w[3] % 32),
     (w[3] \div 32)  + 8 * (w[4] % 16),
     w[4] \div 16 >>

(* Number of bytes of the minimal encoding; zero takes one. *)
VLen(w) == LET s == Sevens(w) IN
  IF s[5] # 0 THEN 5 ELSE IF s[4] # 0 THEN 4 ELSE IF s[3] # 0 THEN 3 ELSE IF s[2] # 0 THEN 2 ELSE 1

VarintOf(w) == LET s == Sevens(w)  n == VLen(w)
               IN  [k \in 1 .. n |-> IF k < n THEN s[k] + 128 ELSE s[k]]

(* The bytes of the varint at offset pos (from 0) of b, and the word they mean *)
(* (the fifth group has only four bits of a word).                             *)
RECURSIVE VarintLenAt(_, _)
VarintLenAt(b, pos) == IF b[pos+1] < 128 THEN 1 ELSE 1 + VarintLenAt(b, pos + 1)
WordOfSevens(s) ==
  << s[1] + 128 * (s[2] % 2),
     (s[2] \div 2) + 64 * (s[3] % 4),
     (s[3] \div 4) + 32 * (s[4] % 8),
     (s[4] \div 8) + 16 * (s[5] % 16) >>
VarintAt(b, pos) ==
  LET n == VarintLenAt(b, pos)
  IN  WordOfSevens([k \in 1 .. 5 |-> IF k <= n THEN b[pos + k] % 128 ELSE 0])

RECURSIVE EncodeAll(_), DecodeAll(_, _)
EncodeAll(ws) == IF ws = <<>> THEN <<>> ELSE VarintOf(Head(ws)) \o EncodeAll(Tail(ws))
DecodeAll(b, pos) == IF pos = Len(b) THEN <<>>
                     ELSE <<VarintAt(b, pos)>> \o DecodeAll(b, pos + VarintLenAt(b, pos))

(* Ascending order and permutation, for the sort helper. *)
Ascending(mem, n) == \A i \in 1 .. n - 1 : ~WLess(WordAt(mem, i), WordAt(mem, i-1))
SameWords(a, b, n) ==
  \A i \in 0 .. n - 1 :
    LET w == WordAt(a, i)
    IN  Cardinality({j \in 0 .. n - 1 : WordAt(a, j) = w}) = Cardinality({j \in 0 .. n - 1 : WordAt(b, j) = w})
===============================================================================
