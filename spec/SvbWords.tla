------------------------------- MODULE SvbWords -------------------------------
(* Unsigned 32-bit words as little-endian 4-digit numbers in radix R.  R = 256 *)
(* is the real machine; smaller radices give exhaustively checkable models of  *)
(* the same algebra.  TLC's integers are 32-bit signed, so words are never     *)
(* represented as single integers.                                             *)
EXTENDS Naturals, Integers, Sequences

CONSTANT
  \* @type: Int;
  R

Digit == 0 .. R-1
Word  == [1..4 -> Digit]

\* @type: <<Int,Int,Int,Int>>;
Zero  == <<0, 0, 0, 0>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

(* Number of digits the minimal representation needs; zero needs one. *)
\* @type: (<<Int,Int,Int,Int>>) => Int;
WLen(w) == IF w[4] # 0 THEN 4 ELSE IF w[3] # 0 THEN 3 ELSE IF w[2] # 0 THEN 2 ELSE 1

(* a + b modulo R^4, digit by digit with carry. *)
\* @type: (<<Int,Int,Int,Int>>,<<Int,Int,Int,Int>>) => <<Int,Int,Int,Int>>;
WAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div R)
      s3 == a[3] + b[3] + (s2 \div R)
      s4 == a[4] + b[4] + (s3 \div R)
  IN  << s1 % R, s2 % R, s3 % R, s4 % R >>

(* a - b modulo R^4, digit by digit with borrow. *)
\* @type: (<<Int,Int,Int,Int>>,<<Int,Int,Int,Int>>) => <<Int,Int,Int,Int>>;
WSub(a, b) ==
  LET d1 == a[1] - b[1]
      d2 == a[2] - b[2] - (IF d1 < 0 THEN 1 ELSE 0)
      d3 == a[3] - b[3] - (IF d2 < 0 THEN 1 ELSE 0)
      d4 == a[4] - b[4] - (IF d3 < 0 THEN 1 ELSE 0)
  IN  << d1 % R, d2 % R, d3 % R, d4 % R >>

(* The i-th word (from 0) of a little-endian memory image. *)
\* @type: (Seq(Int), Int) => <<Int,Int,Int,Int>>;
WordAt(mem, i) == << mem[4*i+1], mem[4*i+2], mem[4*i+3], mem[4*i+4] >>

(* The word stored in sz digits from offset pos (from 0) of mem. *)
\* @type: (Seq(Int), Int, Int) => <<Int,Int,Int,Int>>;
WordFrom(mem, pos, sz) ==
  << mem[pos+1],
     IF sz > 1 THEN mem[pos+2] ELSE 0,
     IF sz > 2 THEN mem[pos+3] ELSE 0,
     IF sz > 3 THEN mem[pos+4] ELSE 0 >>

(* a < b, most significant digit first. *)
\* @type: (<<Int,Int,Int,Int>>,<<Int,Int,Int,Int>>) => Bool;
WLess(a, b) ==
  \/ a[4] < b[4]
  \/ a[4] = b[4] /\ (\/ a[3] < b[3]
                     \/ a[3] = b[3] /\ (\/ a[2] < b[2]
                                        \/ a[2] = b[2] /\ a[1] < b[1]))
===============================================================================
