------------------------------ MODULE Sandpile ------------------------------
(* The sandpile on a rows x cols grid with periodic geometry; with closed boundaries the cells of the first
   and last row and column are sinks. The pile is a sequence, cell c (from 0, row by row) at c + 1. *)
EXTENDS SeqUtil
Cells(rows, cols) == 0..(rows * cols - 1)
OnEdge(rows, cols, c) == c \div cols \in {0, rows - 1} \/ c % cols \in {0, cols - 1}
At(rows, cols, i, j) == ((i + rows) % rows) * cols + ((j + cols) % cols)
Four(rows, cols, c) == LET i == c \div cols j == c % cols IN {At(rows, cols, i - 1, j), At(rows, cols, i + 1, j), At(rows, cols, i, j - 1), At(rows, cols, i, j + 1)}
Topples(g, c) == g[c + 1] >= 4
CellNext(rows, cols, closed, g, c) ==
  IF closed /\ OnEdge(rows, cols, c) THEN 0
  ELSE g[c + 1] - (IF Topples(g, c) THEN 4 ELSE 0) + Cardinality({d \in Four(rows, cols, c) : Topples(g, d)})
PileNext(rows, cols, closed, g) == [x \in 1..(rows * cols) |-> CellNext(rows, cols, closed, g, x - 1)]
Grains(g) == SumSeq(g)
Stable(g) == \A x \in DOMAIN g : g[x] < 4
=============================================================================
