------------------------------ MODULE NetworkMC ------------------------------
(* Exhaustive exploration of the edit operations over a few labels, emitting one behaviour per
   transition (the shortest history to the source state, the operation, and the resulting graph). *)
EXTENDS NetworkOps, Json
CONSTANTS Labels, Attrs, Depth, MaxPar
VARIABLES g, hist

Ops ==
  [op : {"add_node"}, i : Labels, j : {""}, a : Attrs] \cup
  [op : {"add_edge", "add_edge_bidir"}, i : Labels, j : Labels, a : Attrs] \cup
  [op : {"update_edge", "remove_edge"}, i : Labels, j : Labels, a : {[w |-> "i:9"]}] \cup
  [op : {"remove_node"}, i : Labels, j : {""}, a : {EmptyFn}]

Init == g = EmptyGraph /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
             /\ op.op \in {"add_edge", "add_edge_bidir"} /\ HasEdge(g, op.i, op.j) => Len(EdgeAttrs(g, op.i, op.j)) < MaxPar
             /\ g' = Apply(g, op)
             /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<g, hist>>
TheView == <<g, Len(hist)>>

Inv == WellFormed(g)
\* removing something and everything at it leaves no trace
NoTrace == \A l \in Range(g.nodes) : LET h == RemoveNode(g, l) IN
              ~HasNode(h, l) /\ \A e \in Range(Edges(h)) : e[1] # l /\ e[2] # l
\* edits at one pair of nodes do not disturb the edges of any other pair
Frame == [][LET op == Last(hist') IN
             op.op \notin {"remove_node"} =>
               \A i, j \in Labels : ({i, j} # {op.i, op.j} /\ HasEdge(g, i, j)) => (HasEdge(g', i, j) /\ EdgeAttrs(g', i, j) = EdgeAttrs(g, i, j))]_<<g, hist>>
Emit == PrintT("@@" \o ToJson([h |-> hist', nodes |-> g'.nodes, na |-> g'.na, inc |-> g'.inc, din |-> g'.din, dout |-> g'.dout,
                              ok |-> Accepted(g, Last(hist'))]))
=============================================================================
