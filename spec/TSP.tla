-------------------------------- MODULE TSP --------------------------------
(* The Hopfield-Tank network for the travelling salesman: neuron x * n + c says that point x is visited at position c
   (both from 0). Distances in thousandths; neuron outputs V in halves (0, 1, 2). *)
EXTENDS SeqUtil
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF lo + 1 >= hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
ISqrt(x) == Root(x, 0, 46340)
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Dist(p, q) == ISqrt(D2(p, q) * 1000000)

\* the position claimed by a row: that of its largest entry
Claim(row) == (CHOOSE c \in DOMAIN row : \A d \in DOMAIN row : row[d] <= row[c]) - 1
Conflict(M) == \E x, y \in DOMAIN M : x # y /\ Claim(M[x]) = Claim(M[y])
\* the point at each position, and the legs of the closed tour
Order(M) == [c \in 1..Len(M) |-> (CHOOSE x \in DOMAIN M : Claim(M[x]) = c - 1) - 1]
Legs(M) == [c \in 1..Len(M) |-> <<Order(M)[c], Order(M)[(c % Len(M)) + 1]>>]
Edges(M) == {{Legs(M)[c][1], Legs(M)[c][2]} : c \in 1..Len(M)}
Length(P, M) == SumSeq([c \in 1..Len(M) |-> Dist(P[Legs(M)[c][1] + 1], P[Legs(M)[c][2] + 1])])

\* the update of neuron (x, c), from activities u (thousandths) and outputs v (halves); times 8 (quarters of dt, halves of V); the weights A, B, C, D are in halves too
N(P) == Len(P)
V(P, v, x, c) == v[x * N(P) + (((c + N(P)) % N(P))) + 1]
Others(P, x) == (0..(N(P) - 1)) \ {x}
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE z \in S : TRUE IN f[k] + SumF(f, S \ {k})
RowSum(P, v, x, c) == SumF([d \in 0..(N(P) - 1) |-> V(P, v, x, d)], Others(P, c))
ColSum(P, v, x, c) == SumF([y \in 0..(N(P) - 1) |-> V(P, v, y, c)], Others(P, x))
DistSum(P, v, x, c) == SumF([y \in 0..(N(P) - 1) |-> Dist(P[x + 1], P[y + 1]) * (V(P, v, y, c - 1) + V(P, v, y, c + 1))], Others(P, x))
Next8(P, h, u, v, x, c) ==
  LET k == x * N(P) + c + 1
      s2 == (-2) * u[k] - 500 * h.A * RowSum(P, v, x, c) - 500 * h.B * ColSum(P, v, x, c)
            - 500 * h.C * (SumSeq(v) - 2 * h.n) - ((h.D * DistSum(P, v, x, c)) \div 2) IN
  8 * u[k] + h.dt4 * s2
=============================================================================
