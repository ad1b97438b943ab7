------------------------------ MODULE ConvertMC ------------------------------
(* Small weighted multigraphs and their adjacency matrices in every node order, with the facts relating
   them; each is emitted for comparison with the conversions of the code.  Weights are in quarters. *)
EXTENDS GraphDefs, Json
CONSTANTS Nodes, MaxEdges, Weights
VARIABLES es, order, sum
vars == <<es, order, sum>>
\* an edge is <<source, target, has the weight attribute, weight>>
EdgeSet == {<<i, j, w # 0, w>> : i \in Nodes, j \in Nodes, w \in Weights}
Orders == {o \in [1..Cardinality(Nodes) -> Nodes] : \A a, b \in DOMAIN o : a # b => o[a] # o[b]}
Init == es = <<>> /\ order \in Orders /\ sum \in BOOLEAN
Next == Len(es) < MaxEdges /\ \E e \in EdgeSet : es' = Append(es, e) /\ UNCHANGED <<order, sum>>
Spec == Init /\ [][Next]_vars
E(s) == [edges |-> es, order |-> order, sum |-> s]
M == Matrix(E(sum))
\* summing: the total of the matrix is the total weight; without: each entry is that of one of the edges
Total == sum => SumSeq([a \in DOMAIN M |-> SumSeq(M[a])]) = SumSeq([k \in DOMAIN es |-> Weight(es[k])])
OneOf == ~sum => \A a, b \in DOMAIN order : M[a][b] = 0 \/ M[a][b] \in {Weight(es[k]) : k \in {m \in DOMAIN es : es[m][1] = order[a] /\ es[m][2] = order[b]}}
NoParallel == (\A k, m \in DOMAIN es : es[k][1] = es[m][1] /\ es[k][2] = es[m][2] => k = m) => Matrix(E(TRUE)) = Matrix(E(FALSE))
\* an entry is empty exactly where there is no edge (all the weights here are positive)
Support == \A a, b \in DOMAIN order : M[a][b] # 0 <=> \E k \in DOMAIN es : es[k][1] = order[a] /\ es[k][2] = order[b]
\* adding an edge changes one entry only
Local == [][LET e == Last(es') IN \A a, b \in DOMAIN order : (order[a] # e[1] \/ order[b] # e[2]) => M'[a][b] = M[a][b]]_vars
Emit == PrintT("@@" \o ToJson([edges |-> es', order |-> order, sum |-> sum, matrix |-> M']))
=============================================================================
