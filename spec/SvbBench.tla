------------------------------- MODULE SvbBench -------------------------------
(* The benchmark tool: what it makes of a benchmark run's output and a README. *)
(* Texts are sequences of symbols.  For the real tool symbols are bytes; the   *)
(* model SvbBenchMC uses tokens.                                               *)
EXTENDS Naturals, Integers, Sequences

CONSTANTS Start,   \* opens the section's text block (heading, fence)
          Fence,   \* closes it
          NL,      \* end of line (a one-symbol text)
          Rule,    \* the rule after a cpu line
          Env,     \* a function: kind of environment line -> how it starts
          Bench    \* how a benchmark line starts

StartsWith(s, p) == Len(s) >= Len(p) /\ \A i \in 1 .. Len(p) : s[i] = p[i]
At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1 .. Len(p) : s[i + k - 1] = p[k]

(* First position >= from where p occurs in s, or 0. *)
Find(s, p, from) ==
  LET S == {k \in from .. Len(s) - Len(p) + 1 : At(s, k, p)}
  IN  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j

Kind(line) == IF StartsWith(line, Bench) THEN "bench"
              ELSE IF \E k \in DOMAIN Env : StartsWith(line, Env[k])
              THEN CHOOSE k \in DOMAIN Env : StartsWith(line, Env[k])
              ELSE "other"

(* --- the body, one input line at a time -------------------------------------*)
(* acc: lines so far; seen: was there a benchmark line already?                *)
LineOf(acc, seen, line) ==
  CASE Kind(line) = "bench" -> Append(acc, SubSeq(line, Len(Bench) + 1, Len(line)))
    [] Kind(line) = "goos"  -> (IF seen THEN Append(acc, <<>>) ELSE acc) \o <<line>>
    [] Kind(line) = "cpu"   -> acc \o <<line, Rule>>
    [] Kind(line) = "other" -> acc
    [] OTHER                -> Append(acc, line)
Seen(seen, line) == seen \/ Kind(line) = "bench"

RECURSIVE Body(_, _, _)
Body(acc, seen, lines) == IF lines = <<>> THEN acc
                          ELSE Body(LineOf(acc, seen, Head(lines)), Seen(seen, Head(lines)), Tail(lines))

RECURSIVE Text(_)
Text(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o NL \o Text(Tail(ls))

(* --- the result --------------------------------------------------------------*)
HasSection(readme) == LET s == Find(readme, Start, 1) IN s > 0 /\ Find(readme, Fence, s + Len(Start)) > 0

Result(readme, lines) ==
  LET s == Find(readme, Start, 1)
      b == s + Len(Start)                 \* first symbol of the old body
      r == Find(readme, Fence, b)         \* first symbol after it
  IN  SubSeq(readme, 1, b - 1) \o Text(Body(<<>>, FALSE, lines)) \o SubSeq(readme, r, Len(readme))
===============================================================================
