------------------------------- MODULE Fungal -------------------------------
(* The fungal growth model on a periodic grid: a directed resource-flow network over grid-adjacent cells, and the
   resource of each cell. Cells are numbered from 0, row by row. A link is a pair <<from, to>>. *)
EXTENDS SeqUtil
Cells(w, h) == 0..(w * h - 1)
At(w, h, i, j) == ((i + h) % h) * w + ((j + w) % w)
Near(w, h, c) == LET i == c \div w j == c % w IN {At(w, h, i - 1, j), At(w, h, i + 1, j), At(w, h, i, j - 1), At(w, h, i, j + 1)} \ {c}
\* unordered adjacent pairs, written smaller first
Pairs(w, h) == {<<a, b>> \in Cells(w, h) \X Cells(w, h) : a < b /\ b \in Near(w, h, a)}
Linked(L, p) == p \in L \/ <<p[2], p[1]>> \in L
Preds(L, c) == {l[1] : l \in {m \in L : m[2] = c}}
OutDeg(L, c) == Cardinality({l \in L : l[1] = c})
Degree(L, c) == Cardinality({l \in L : c \in {l[1], l[2]}})
MaxDegree == 4

(* What the growth of one open pair may do: "none", "forward" (from p[1] to p[2]) or "backward". *)
GrowthChoices(L, alive, p) ==
  IF Linked(L, p) THEN {"none"}
  ELSE LET a == alive[p[1] + 1] b == alive[p[2] + 1] IN
       IF ~a /\ ~b THEN {"none"}
       ELSE IF a /\ b THEN {"forward", "backward"}
       ELSE LET s == IF a THEN p[1] ELSE p[2] d == IF a THEN "forward" ELSE "backward" IN
            \* with a single free site the growth is certain
            IF Degree(L, s) = MaxDegree - 1 THEN {d} ELSE {"none", d}
Grown(L, choice) == L \cup {p \in DOMAIN choice : choice[p] = "forward"} \cup {<<p[2], p[1]>> : p \in {q \in DOMAIN choice : choice[q] = "backward"}}

(* The resource of a cell in 1/12ths of the unit of R (12 is divisible by every possible out-degree). *)
RECURSIVE SumOver(_, _, _)
SumOver(L, R, P) == IF P = {} THEN 0 ELSE LET n == CHOOSE x \in P : TRUE IN R[n + 1] * (12 \div OutDeg(L, n)) + SumOver(L, R, P \ {n})
Inflow12(L, R, c) == IF Preds(L, c) = {} THEN 12 * R[c + 1] ELSE SumOver(L, R, Preds(L, c))
Absorbed(absorb, alive, layer, c) == IF alive[c + 1] /\ layer[c + 1] = 1 THEN absorb ELSE 0
\* alive after the step: some resource arrives
AliveNext(L, alive, layer, absorb, c) ==
  (absorb > 0 /\ alive[c + 1] /\ layer[c + 1] = 1) \/ (IF Preds(L, c) = {} THEN alive[c + 1] ELSE \E n \in Preds(L, c) : alive[n + 1])
=============================================================================
