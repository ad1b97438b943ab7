----------------------------- MODULE LocalRules -----------------------------
(* The defining tables of the local cellular-automaton rules.  Rule numbers may be far larger than TLC's
   integers, so a number is given as its digits in base 2^15, the least significant first. *)
EXTENDS SeqUtil
Limb == 32768
\* quotient and remainder of a number by a small one
RECURSIVE DivFrom(_, _, _, _)
DivFrom(num, d, k, rem) ==
  IF k = 0 THEN [q |-> <<>>, r |-> rem]
  ELSE LET cur == rem * Limb + num[k] rest == DivFrom(num, d, k - 1, cur % d) IN [q |-> Append(rest.q, cur \div d), r |-> rest.r]
DivMod(num, d) == LET x == DivFrom(num, d, Len(num), 0) IN [q |-> x.q, r |-> x.r]
RECURSIVE Strip(_)
Strip(num) == IF num = <<>> \/ Last(num) # 0 THEN num ELSE Strip(SubSeq(num, 1, Len(num) - 1))
\* digit i (0 = least significant) of num in base k
RECURSIVE Digit(_, _, _)
Digit(num, k, i) == LET x == DivMod(num, k) IN IF i = 0 THEN x.r ELSE Digit(Strip(x.q), k, i - 1)
RECURSIVE NumDigits(_, _)
NumDigits(num, k) == LET s == Strip(num) IN IF s = <<>> THEN 0 ELSE 1 + NumDigits(DivMod(s, k).q, k)
Bit(num, i) == IF i \div 15 + 1 > Len(num) THEN 0 ELSE (num[i \div 15 + 1] \div Pow(2, i % 15)) % 2
Number(x) == IF x < Limb THEN <<x>> ELSE <<x % Limb, x \div Limb>>

\* the neighbourhood read as a binary number
RECURSIVE BinVal(_)
BinVal(nb) == IF nb = <<>> THEN 0 ELSE 2 * BinVal(SubSeq(nb, 1, Len(nb) - 1)) + Last(nb)
\* NKS: the rightmost bit of the rule number is for 00..0; the default (lexicographic) order: the leftmost
NksRule(num, nb) == Bit(num, BinVal(nb))
BinRule(num, nb) == Bit(num, Pow(2, Len(nb)) - 1 - BinVal(nb))
TotMax(k, n) == n * (k - 1) + 1
TotInRange(num, k, n) == NumDigits(num, k) <= TotMax(k, n)
TotRule(num, k, nb) == Digit(num, k, SumSeq(nb))
MostFrequent(nb) == {v \in Range(nb) : \A w \in Range(nb) : Count(nb, v) >= Count(nb, w)}
\* nb includes the cell itself
Life(cur, nb) == LET live == SumSeq(nb) - cur IN IF cur = 1 THEN (IF live \in {2, 3} THEN 1 ELSE 0) ELSE (IF live = 3 THEN 1 ELSE 0)
Wire(cur, nb) == CASE cur = 0 -> 0 [] cur = 1 -> 2 [] cur = 2 -> 3 [] cur = 3 -> IF Count(nb, 1) \in {1, 2} THEN 1 ELSE 3
=============================================================================
