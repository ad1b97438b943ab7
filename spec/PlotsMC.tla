------------------------------ MODULE PlotsMC ------------------------------
(* All small plots, with the facts that hold of them; each is emitted for comparison with the figure the code draws. *)
EXTENDS Plots, Json
CONSTANTS MaxT, MaxN, MaxV, MaxSide, MaxEdges
VARIABLES c
Shapes == {s \in (1..MaxN) \X (1..MaxN) : s[1] * s[2] <= MaxN}
Rows(n) == UNION {[1..t -> [1..n -> 0..MaxV]] : t \in 1..MaxT}
Nodes == <<"i:0", "s:A", "i:7">>
EdgeSeqs == UNION {[1..m -> Range(Nodes) \X Range(Nodes)] : m \in 1..MaxEdges}
NoOpt == [title |-> "", vmin |-> <<>>, vmax |-> <<>>, node_annotations |-> <<>>, show_grid |-> FALSE, traj |-> TRUE]
LabelsOf(n) == IF n = 1 THEN {<<5>>} ELSE {[k \in 1..n |-> k - 1], [k \in 1..n |-> 3 - 2 * k]}
Base(n) == [k \in 1..n |-> k - 1]
Init == \/ \E s \in Shapes : \E r \in Rows(s[1] * s[2]), k \in {-1, 0}, ls \in LabelsOf(s[1] * s[2]) :
             c = NoOpt @@ [kind |-> "activities", rows |-> r, labels |-> ls, order |-> Base(Len(ls)), shape |-> s, slice |-> <<k>>]
        \/ \E n \in 1..MaxN : \E r \in Rows(n), ls \in LabelsOf(n), f \in BOOLEAN :
             c = NoOpt @@ [kind |-> "animate", rows |-> r, labels |-> ls, order |-> Base(n), shape |-> IF f THEN <<n>> ELSE <<1, n>>, cube |-> <<>>,
                           with_timestep |-> FALSE, show_margin |-> TRUE, blit |-> TRUE, calls |-> 2 * Len(r)]
        \/ \E n \in 2..(MaxT + 1) : \E s \in [1..(MaxT + 1) -> 0..MaxV], kd \in {"poincare", "bifurcation"} :
             c = [kind |-> kd, series |-> <<s>>, last |-> n, single |-> FALSE, arrays |-> FALSE, x |-> <<4>>]
        \/ \E es \in EdgeSeqs, w \in {"", "in_degree", "out_degree"} :
             c = [kind |-> "degrees", nodes |-> Nodes, edges |-> es, which |-> w, eq |-> FALSE]
        \/ \E a, b \in 1..MaxSide :
             c = NoOpt @@ [kind |-> "hex", rows |-> <<[k \in 1..(a * b) |-> (k * k) % 5]>>, labels |-> Base(a * b), order |-> Base(a * b),
                           shape |-> <<a, b>>, slice |-> <<-1>>, cmap |-> "viridis", calls |-> 1]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c>>

\* the grid shows each activity once
GridWhole == c.kind = "activities" => Bag(Flat(Image(Table(c), c.shape, c.slice[1]))) = Bag(At(Table(c), c.slice[1]))
\* the frames grow to the whole table, or are the rows
FramesGrow == c.kind = "animate" =>
  LET F == Frames(c) IN Len(F) = Len(c.rows) /\ (IF Len(c.shape) = 1 THEN Last(F) = Table(c) ELSE \A t \in DOMAIN F : F[t][1] = Table(c)[t])
\* return points follow each other; branches are no more than the values looked at
Chained == c.kind = "poincare" => LET P == Returns(c.series[1], c.last) IN Len(P) = c.last - 1 /\ \A k \in 1..(Len(P) - 1) : P[k][2] = P[k + 1][1]
FewBranches == c.kind = "bifurcation" => Cardinality(Branches(4, c.series[1], c.last)) \in 1..c.last
\* hand-shaking: the degrees add up to the edges (twice, for total degrees)
Handshake == c.kind = "degrees" =>
  LET B == Bars(c.nodes, c.edges, c.which) IN
  SumSeq([k \in DOMAIN B |-> B[k][1] * B[k][2]]) = Len(c.edges) * (IF c.which = "" THEN 2 ELSE 1)
\* hexagons touch exactly when their cells are neighbours in the hexagonal topology (away from the wrapped border)
Touch(p, q) == LET dx == (p[1] - q[1]) \div 1000 dy == (p[2] - q[2]) \div 1000 IN dx * dx + 3 * dy * dy = 4
HexTouch == (c.kind = "hex" /\ c.shape[1] % 2 = 0 /\ c.shape[1] >= 4 /\ c.shape[2] >= 3) =>
  LET R == c.shape[1] K == c.shape[2] IN
  \A i, j \in 0..(R * K - 1) :
    LET a == <<i \div K, i % K>> b == <<j \div K, j % K>> IN
    (i # j /\ Abs(a[1] - b[1]) <= 1 /\ Abs(a[2] - b[2]) <= 1 /\ ~(K = 3 /\ Abs(a[2] - b[2]) = 2)) =>
      (Touch(HexCentre(R, a[2], a[1]), HexCentre(R, b[2], b[1])) <=> b[2] - a[2] \in {d \in -1..1 : Within("Hex", 1, a[1], b[1] - a[1], d)})
HexApart == c.kind = "hex" => LET L == Cellsof(Fold(c.shape, c.rows[1])) IN Cardinality({HexCentre(c.shape[1], L[k][1], L[k][2]) : k \in DOMAIN L}) = Len(L)
Shown == CASE c.kind = "activities" -> [img |-> Image(Table(c), c.shape, c.slice[1])]
           [] c.kind = "animate" -> [cycle |-> Frames(c)]
           [] c.kind = "poincare" -> [pts |-> <<Returns(c.series[1], c.last)>>]
           [] c.kind = "bifurcation" -> [pts |-> <<[k \in 1..Cardinality(Range(LastOf(c.series[1], c.last))) |-> <<4, Ascending(Range(LastOf(c.series[1], c.last)))[k]>>]>>]
           [] c.kind = "degrees" -> [bars |-> Bars(c.nodes, c.edges, c.which)]
           [] c.kind = "hex" -> [centres |-> LET L == Cellsof(Fold(c.shape, c.rows[1])) IN [k \in DOMAIN L |-> HexCentre(c.shape[1], L[k][1], L[k][2])]]
EmitInit == PrintT("@@" \o ToJson([c |-> c, o |-> Shown]))
=============================================================================
