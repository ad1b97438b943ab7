------------------------------- MODULE CopyMC -------------------------------
(* Every small history that builds a network, copies it, and edits either side, with both sides as
   independent values; each is emitted for replay on a real network and its copy. *)
EXTENDS NetworkOps, Json
CONSTANTS Labels, Before, After
VARIABLES o, c, copied, hist
vars == <<o, c, copied, hist>>
A1 == [w |-> "i:1"]
A2 == [w |-> "i:2"]
Ops == [op : {"add_node"}, i : Labels, j : {""}, a : {EmptyFn, A1}] \cup
       [op : {"add_edge"}, i : Labels, j : Labels, a : {EmptyFn, A1}] \cup
       [op : {"add_edge_bidir", "update_edge"}, i : Labels, j : Labels, a : {A2}] \cup
       [op : {"remove_edge"}, i : Labels, j : Labels, a : {EmptyFn}] \cup
       [op : {"remove_node"}, i : Labels, j : {""}, a : {EmptyFn}] \cup
       \* in-place changes of the attributes of the first parallel edge and of a node
       [op : {"set_edge"}, i : Labels, j : Labels, a : {[w |-> "i:3"]}] \cup [op : {"set_node"}, i : Labels, j : {""}, a : {[w |-> "i:4"]}]
Enabled_(g, op) == IF op.op = "set_edge" THEN HasEdge(g, op.i, op.j) ELSE IF op.op = "set_node" THEN HasNode(g, op.i) ELSE Accepted(g, op)
Done(g, op) == IF op.op = "set_edge" THEN UpdateEdge(g, op.i, op.j, {1}, op.a)
               ELSE IF op.op = "set_node" THEN [g EXCEPT !.na[op.i] = op.a @@ @] ELSE Apply(g, op)
Init == o = EmptyGraph /\ c = EmptyGraph /\ copied = 0 /\ hist = <<>>
Next == \/ /\ copied = 0 /\ Len(hist) < Before
           /\ \E op \in Ops : Enabled_(o, op) /\ o' = Done(o, op) /\ hist' = Append(hist, [side |-> "orig"] @@ op)
           /\ UNCHANGED <<c, copied>>
        \/ copied = 0 /\ copied' = Len(hist) + 1 /\ c' = o /\ hist' = Append(hist, [side |-> "copy", op |-> "copy", i |-> "", j |-> "", a |-> EmptyFn]) /\ UNCHANGED o
        \/ /\ copied > 0 /\ Len(hist) < copied + After
           /\ \E op \in Ops : \/ Enabled_(o, op) /\ o' = Done(o, op) /\ hist' = Append(hist, [side |-> "orig"] @@ op) /\ UNCHANGED <<c, copied>>
                              \/ Enabled_(c, op) /\ c' = Done(c, op) /\ hist' = Append(hist, [side |-> "copy"] @@ op) /\ UNCHANGED <<o, copied>>
Spec == Init /\ [][Next]_vars
View_ == <<o, c, copied, Len(hist)>>
Sound == WellFormed(o) /\ WellFormed(c)
\* an edit shows on the edited side only
OneSide == [][copied > 0 => o' = o \/ c' = c]_vars
Proj(g) == [nodes |-> g.nodes, na |-> g.na, inc |-> g.inc, din |-> g.din, dout |-> g.dout]
Emit == copied' = 0 \/ PrintT("@@" \o ToJson([h |-> hist', o |-> Proj(o'), c |-> Proj(c')]))
=============================================================================
