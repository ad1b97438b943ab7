------------------------------- MODULE Plots -------------------------------
(* What plots and animations of recorded data must show. A table is a sequence of rows (one per timestep); a
   case c may give it as a trajectory: row k lists the activities of the nodes c.labels[1], c.labels[2], ... *)
EXTENDS GraphDefs

Rank(ls, j) == Cardinality({i \in DOMAIN ls : ls[i] < ls[j]}) + 1
\* one column per node, in label order
ByLabel(ls, row) == [k \in DOMAIN row |-> row[CHOOSE j \in DOMAIN ls : Rank(ls, j) = k]]
Table(c) == IF c.traj THEN [t \in DOMAIN c.rows |-> ByLabel(c.labels, c.rows[t])] ELSE c.rows
\* a row as a grid, row-major
Fold(shape, row) == [i \in 1..shape[1] |-> [j \in 1..shape[2] |-> row[(i - 1) * shape[2] + j]]]
At(rows, k) == IF k < 0 THEN rows[Len(rows) + k + 1] ELSE rows[k + 1]
SliceOf(c) == IF c.slice = <<>> THEN -1 ELSE c.slice[1]
Image(rows, shape, k) == IF shape = <<>> THEN rows ELSE Fold(shape, At(rows, k))

\* the frames of an animation
Upto(rows, t) == [k \in DOMAIN rows |-> IF k <= t THEN rows[k] ELSE [j \in DOMAIN rows[1] |-> 0]]
Frames(c) ==
  IF c.cube # <<>> THEN c.cube
  ELSE LET R == TLCEval(Table(c)) IN
       IF Len(c.shape) = 1 THEN [t \in DOMAIN R |-> Upto(R, t)] ELSE [t \in DOMAIN R |-> Fold(c.shape, R[t])]
\* shown in order again and again (which one is on display when the recording begins depends on the renderer's warming up)
CycleFrom(shown, frames, off) == \A k \in DOMAIN shown : shown[k] = frames[((k - 1 + off) % Len(frames)) + 1]
Cycles(shown, frames) == \E off \in 0..(Len(frames) - 1) : CycleFrom(shown, frames, off)

\* a series plot: on axis a (of n) go the series a, a + n, a + 2n, ...
OnAxis(m, n, a) == SelectSeq([i \in 1..m |-> i], LAMBDA i : (i - 1) % n = a - 1)

\* the points of return plots
LastOf(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Returns(s, n) == LET w == LastOf(s, n) IN [k \in 1..(n - 1) |-> <<w[k], w[k + 1]>>]
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Ascending(S \ {Min(S)})
Branches(x, s, n) == {<<x, v>> : v \in Range(LastOf(s, n))}

\* degrees of a graph given by its nodes and its edges
DegreeOf(es, x, which) ==
  (IF which = "in_degree" THEN 0 ELSE Cardinality({k \in DOMAIN es : es[k][1] = x})) +
  (IF which = "out_degree" THEN 0 ELSE Cardinality({k \in DOMAIN es : es[k][2] = x}))
Bars(nodes, es, which) ==
  LET D == TLCEval([k \in DOMAIN nodes |-> DegreeOf(es, nodes[k], which)]) IN
  [d \in 1..Max(Range(D) \cup {0}) |-> <<d, Count(D, d)>>]

\* hexagons: the centre of the cell at (column x, row y) of a grid of so many rows, in thousandths of half a width and of
\* the distance between rows; the odd rows are moved by half a width
HexCentre(rows, x, y) == <<1000 * (2 * x + (IF y % 2 = 0 THEN 0 ELSE IF rows % 2 = 1 THEN 1 ELSE -1)), 1000 * y>>
\* the corners of a hexagon with sides as long as its radius, 1, standing on a corner
Corners == <<<<-1000, -333>>, <<-1000, 333>>, <<0, -667>>, <<0, 667>>, <<1000, -333>>, <<1000, 333>>>>
\* the colour of a value: how far it lies between the least and the greatest, in 1/256
Shade(v, lo, hi) == IF hi = lo THEN 0 ELSE IF v <= lo THEN 0 ELSE IF v >= hi THEN 255 ELSE Min({255, ((v - lo) * 256) \div (hi - lo)})
Cellsof(g) == Flat([y \in DOMAIN g |-> [x \in DOMAIN g[y] |-> <<x - 1, y - 1, g[y][x]>>]])
Values(g) == UNION {Range(g[y]) : y \in DOMAIN g}
=============================================================================
