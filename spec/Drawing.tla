------------------------------- MODULE Drawing -------------------------------
(* Drawable graphs of configurations of relations, their pages, and grid layouts. *)
EXTENDS SeqUtil
Elements(cfg) == UNION {Range(cfg[k]) : k \in DOMAIN cfg}
\* one edge for each consecutive pair of each relation
EdgesOf(r) == IF Len(r) < 2 THEN <<>> ELSE [i \in 1..(Len(r) - 1) |-> <<r[i], r[i + 1]>>]
AllEdges(cfg) == Flat([k \in DOMAIN cfg |-> EdgesOf(cfg[k])])
Same(es, fs) == Bag(es) = Bag(fs)
\* the sizes of the successive self-references of a node grow
LoopsGrow(es, sizes) == \A i, j \in DOMAIN es : (i < j /\ es[i][1] = es[i][2] /\ es[j] = es[i]) => sizes[i] < sizes[j]
LoopsDrawn(es, sizes) == \A i \in DOMAIN es : es[i][1] = es[i][2] => sizes[i] > 0
GridPos(nx, ny) == [k \in 1..(nx * ny) |-> <<(k - 1) \div ny, (k - 1) % ny>>]
ASSUME \A a, b \in 1..4 : Cardinality(Range(GridPos(a, b))) = a * b
=============================================================================
