------------------------------ MODULE GraphDefs ------------------------------
(* What the conversions and graph generators must produce, defined from first principles. *)
EXTENDS NetworkViews

T(n) == "i:" \o ToString(n)
Labels(n) == {T(k) : k \in 0..(n - 1)}
\* edges of a recorded projection as a bag of <<source, target, attributes>>
EdgeBag(p) == Bag(Edges(p))
Pairs(p) == Bag([k \in DOMAIN Edges(p) |-> <<Edges(p)[k][1], Edges(p)[k][2]>>])
Once(S) == [x \in S |-> 1]
SameNodes(p, S) == Range(p.nodes) = S /\ NoDup(p.nodes)

(* C03: conversions *)
FromMatrix(m, nz) == \* m: matrix of value tokens; nz: which of them are non-zero
  Once({<<T(q[1] - 1), T(q[2] - 1), [weight |-> m[q[1]][q[2]]]>> : q \in {x \in (DOMAIN m) \X (DOMAIN m) : nz[x[1]][x[2]]}})

\* an edge is <<source, target, has the weight attribute, 4 * weight>>
Weight(x) == IF x[3] THEN x[4] ELSE 4
WeightsOf(e, i, j) == SelectSeq(e.edges, LAMBDA x : x[1] = i /\ x[2] = j)
Entry(e, i, j) ==
  LET ws == WeightsOf(e, i, j) IN
  IF ws = <<>> THEN 0
  ELSE IF e.sum THEN SumSeq([k \in DOMAIN ws |-> Weight(ws[k])])
  ELSE Weight(Last(ws))
Matrix(e) == [a \in DOMAIN e.order |-> [b \in DOMAIN e.order |-> Entry(e, e.order[a], e.order[b])]]

(* C04: cellular-automaton topologies *)
Ring(n, r, i) == [k \in 1..(2 * r + 1) |-> (i + k - 1 - r + n) % n]
Within(type, r, row, da, db) ==
  CASE type = "Moore" -> Abs(da) <= r /\ Abs(db) <= r
    [] type = "von Neumann" -> Abs(da) + Abs(db) <= r
    [] type = "Hex" -> IF da = 0 THEN Abs(db) <= 1
                       ELSE Abs(da) = 1 /\ (IF row % 2 = 0 THEN db \in {0, 1} ELSE db \in {-1, 0})
Cells2d(rows, cols, type, r, i) ==
  LET a == i \div cols b == i % cols IN
  {((a + d[1] + rows) % rows) * cols + ((b + d[2] + cols) % cols) :
     d \in {x \in ((-r)..r) \X ((-r)..r) : Within(type, r, a, x[1], x[2])}}
TSet(S) == {T(x) : x \in S}

(* C05: generators *)
\* grid cells are numbered with the first dimension varying fastest
Stride(dim, d) == LET RECURSIVE P(_)
                      P(k) == IF k = 0 THEN 1 ELSE dim[k] * P(k - 1)
                  IN P(d - 1)
Size(dim) == Stride(dim, Len(dim) + 1)
Coord(dim, x, d) == (x \div Stride(dim, d)) % dim[d]
Adjacent(dim, periodic, x, y) ==
  \E d \in DOMAIN dim :
    /\ \A o \in DOMAIN dim : o # d => Coord(dim, x, o) = Coord(dim, y, o)
    /\ LET a == Coord(dim, x, d) b == Coord(dim, y, d) IN
       a # b /\ (Abs(a - b) = 1 \/ (periodic /\ {a, b} = {0, dim[d] - 1}))
LatticePairs(e) ==
  LET C == 0..(Size(e.dim) - 1) IN
  {<<T(q[1] + e.first), T(q[2] + e.first)>> : q \in {z \in C \X C : Adjacent(e.dim, e.periodic, z[1], z[2])}} \cup
  (IF e.loops THEN {<<T(x + e.first), T(x + e.first)>> : x \in C} ELSE {})

RingLattice(n, k) == {<<T(i), T(j)>> : <<i, j>> \in {q \in (0..(n - 1)) \X (0..(n - 1)) :
                        q[1] # q[2] /\ (((q[1] - q[2] + n) % n) <= k \div 2 \/ ((q[2] - q[1] + n) % n) <= k \div 2)}}
=============================================================================
