----------------------------- MODULE NetworkOps -----------------------------
(* The edit operations of a Network as a state machine: each operation is a record, and
   Apply gives the graph it leads to and whether it is accepted. *)
EXTENDS Multigraph

Accepted(g, op) ==
  CASE op.op \in {"add_node", "add_edge", "add_edge_bidir"} -> TRUE
    [] op.op \in {"update_edge", "remove_edge"} -> HasEdge(g, op.i, op.j)
    [] op.op = "update_edge_at" -> HasEdge(g, op.i, op.j) /\ \A k \in Range(op.idx) : k < Len(EdgeAttrs(g, op.i, op.j))
    [] op.op \in {"remove_node", "delitem"} -> HasNode(g, op.i)

Effect(g, op) ==
  CASE op.op = "add_node" -> AddNode(g, op.i, op.a)
    [] op.op = "add_edge" -> AddEdge(g, op.i, op.j, op.a)
    [] op.op = "add_edge_bidir" -> AddEdgeBidir(g, op.i, op.j, op.a)
    [] op.op = "update_edge" -> UpdateAll(g, op.i, op.j, op.a)
    [] op.op = "update_edge_at" -> UpdateEdge(g, op.i, op.j, {k + 1 : k \in Range(op.idx)}, op.a)
    [] op.op = "remove_edge" -> RemoveEdge(g, op.i, op.j)
    [] op.op \in {"remove_node", "delitem"} -> RemoveNode(g, op.i)

Apply(g, op) == IF Accepted(g, op) THEN Effect(g, op) ELSE g
=============================================================================
