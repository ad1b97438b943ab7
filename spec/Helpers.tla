------------------------------- MODULE Helpers -------------------------------
(* Initial conditions, activity tables, binomial coefficients, binary digits, lattice layouts. *)
EXTENDS SeqUtil
Simple(size, val) == [i \in 1..size |-> IF i - 1 = size \div 2 THEN val ELSE 0]
Simple2d(rows, cols, val) == [i \in 1..(rows * cols) |-> IF i - 1 = (rows \div 2) * cols + (cols \div 2) THEN val ELSE 0]
\* the randomized region: centred, the odd cell out on the right
PadLeft(size, n) == (size - n) \div 2
PadRight(size, n) == size - n - PadLeft(size, n)
Region(size, n) == (PadLeft(size, n) + 1)..(PadLeft(size, n) + n)
RegionValid(size, n) == n >= 0 /\ n <= size

\* Pascal's triangle modulo m: Pascal(m, n)[r + 1] = C(n, r) mod m
RECURSIVE PascalRow(_, _)
PascalRow(m, n) == IF n = 0 THEN <<1 % m>>
                   ELSE LET p == TLCEval(PascalRow(m, n - 1)) IN TLCEval([r \in 1..(n + 1) |-> ((IF r <= n THEN p[r] ELSE 0) + (IF r >= 2 THEN p[r - 1] ELSE 0)) % m])
NcrMod(m, n, r) == IF r > n THEN 0 ELSE PascalRow(m, n)[r + 1]

RECURSIVE Bits(_)
Bits(x) == IF x < 2 THEN <<x>> ELSE Append(Bits(x \div 2), x % 2)
LeftPad(s, w) == [i \in 1..w |-> IF i <= w - Len(s) THEN 0 ELSE s[i - (w - Len(s))]]
Binarized(vs) == LET w == Max({Len(Bits(vs[k])) : k \in DOMAIN vs}) IN [k \in DOMAIN vs |-> LeftPad(Bits(vs[k]), w)]
RECURSIVE FromBits(_)
FromBits(s) == IF s = <<>> THEN 0 ELSE 2 * FromBits(SubSeq(s, 1, Len(s) - 1)) + Last(s)

\* the values of a state's activities (pairs label, value) in ascending order of their labels
InLabelOrder(acts) == LET L == {acts[k][1] : k \in DOMAIN acts} IN
  [i \in 1..Cardinality(L) |-> LET l == CHOOSE m \in L : Cardinality({x \in L : x < m}) = i - 1 IN acts[CHOOSE k \in DOMAIN acts : acts[k][1] = l][2]]

ASSUME \A size \in 1..9, n \in 0..9 : RegionValid(size, n) => /\ PadLeft(size, n) + n + PadRight(size, n) = size
                                                              /\ PadRight(size, n) - PadLeft(size, n) \in {0, 1}
ASSUME \A size \in 1..9 : Cardinality({i \in 1..size : Simple(size, 3)[i] = 3}) = 1
ASSUME \A r, c \in 1..5 : Cardinality({i \in 1..(r * c) : Simple2d(r, c, 3)[i] = 3}) = 1 /\ (r = 1 => Simple2d(r, c, 3) = Simple(c, 3))
ASSUME \A n \in 0..10 : \A r \in 0..n : NcrMod(10007, n, r) = NcrMod(10007, n, n - r)
ASSUME \A n \in 0..10 : SumSeq(PascalRow(1000000, n)) = Pow(2, n)
ASSUME \A x \in 0..300 : FromBits(Bits(x)) = x /\ FromBits(LeftPad(Bits(x), 12)) = x
=============================================================================
