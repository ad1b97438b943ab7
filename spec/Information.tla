----------------------------- MODULE Information -----------------------------
(* Empirical entropies in fixed point. For a sequence of n symbols with counts c, n*H = n log2 n - sum of c log2 c;
   all quantities here are n times the measure, in units of 1/Unit bits. *)
EXTENDS SeqUtil
Unit == 100000
\* c * log2(c) * Unit, rounded, for c = 1..64
CLog == <<0, 200000, 475489, 800000, 1160964, 1550978, 1965148, 2400000, 2852933, 3321928, 3805375, 4301955,
          4810572, 5330297, 5860336, 6400000, 6948687, 7505865, 8071062, 8643856, 9223867, 9810750, 10404192, 11003910,
          11609640, 12221143, 12838196, 13460594, 14088145, 14720672, 15358009, 16000000, 16646501, 17297374, 17952491, 18611730,
          19274977, 19942125, 20613069, 21287712, 21965963, 22647733, 23332938, 24021499, 24713339, 25408385, 26106568, 26807820,
          27512078, 28219281, 28929369, 29642287, 30357978, 31076393, 31797478, 32521188, 33247473, 33976290, 34707594, 35441344,
          36177498, 36916017, 37656864, 38400000>>
MaxLen == Len(CLog)
CL(c) == IF c = 0 THEN 0 ELSE CLog[c]
\* log2 is additive: (ab) log(ab) = b (a log a) + a (b log b), up to the rounding of the table
ASSUME \A a, b \in 1..MaxLen : a * b > MaxLen \/ Abs(CLog[a * b] - b * CLog[a] - a * CLog[b]) <= a + b
ASSUME CLog[1] = 0 /\ CLog[2] = 2 * Unit
\* strictly increasing and convex
ASSUME \A c \in 2..(MaxLen - 1) : CLog[c + 1] - CLog[c] > CLog[c] - CLog[c - 1]

\* log2 of any c up to some thousands, bit by bit, in units of 1/10000 bits (for long sequences)
Fx == 16384
RECURSIVE Halvings(_), LogBits(_, _, _)
Halvings(c) == IF c < 2 THEN 0 ELSE 1 + Halvings(c \div 2)
\* m in [Fx, 2 Fx) stands for m / Fx; w is the weight of the next bit in units of 1/1310720 bits
LogBits(m, w, acc) == IF w = 0 THEN acc
                      ELSE LET q == (m * m) \div Fx IN IF q >= 2 * Fx THEN LogBits(q \div 2, w \div 2, acc + w) ELSE LogBits(q, w \div 2, acc)
LogFx(c) == LET e == Halvings(c) IN 10000 * e + ((LogBits((c * Fx) \div Pow(2, e), 655360, 0) \div 16) * 1000) \div 8192
ASSUME \A c \in 1..MaxLen : Abs(10 * c * LogFx(c) - CLog[c]) <= 30 * c
ASSUME \A a \in 1..40, b \in {25, 30} : Abs(LogFx(a * b) - LogFx(a) - LogFx(b)) <= 6
RECURSIVE SumLong(_, _)
SumLong(x, S) == IF S = {} THEN 0 ELSE LET v == CHOOSE w \in S : TRUE k == Count(x, v) IN k * LogFx(k) + SumLong(x, S \ {v})
NHLong(x) == Len(x) * LogFx(Len(x)) - SumLong(x, Range(x))

RECURSIVE SumCounts(_, _)
SumCounts(x, S) == IF S = {} THEN 0 ELSE LET v == CHOOSE w \in S : TRUE IN CL(Count(x, v)) + SumCounts(x, S \ {v})
NH(x) == CL(Len(x)) - SumCounts(x, Range(x))
Zip(x, y) == [k \in DOMAIN x |-> <<x[k], y[k]>>]
NJ(x, y) == NH(Zip(x, y))
NMI(x, y) == NH(x) + NH(y) - NJ(x, y)
Column(rows, i) == [t \in DOMAIN rows |-> rows[t][i]]
Early(x, d) == SubSeq(x, 1, Len(x) - d)
Late(x, d) == SubSeq(x, d + 1, Len(x))
\* m * n times the average over the m nodes
MNAvgH(rows) == SumSeq([i \in DOMAIN rows[1] |-> NH(Column(rows, i))])
MNAvgMI(rows, d) == SumSeq([i \in DOMAIN rows[1] |-> NMI(Early(Column(rows, i), d), Late(Column(rows, i), d))])
=============================================================================
