---------------------------- MODULE NetworkViews ----------------------------
(* The public views of a Network, as functions of the multigraph it stands for. *)
EXTENDS NetworkOps
Named(p, names) == {p \o x : x \in names}

\* v: the recorded views; pr: label pairs queried
Views(h, v) ==
  Cl("nodes", v.nodes = h.nodes) \cup
  Cl("size", v.len = Len(h.nodes)) \cup
  Cl("node_attributes", v.na = h.na) \cup
  Cl("in_edges", v.inc = h.inc) \cup
  Cl("edges", v.edges = Edges(h)) \cup
  Cl("in_degree", v.din = h.din) \cup
  Cl("out_degree", v.dout = h.dout) \cup
  Cl("degree", v.deg = [l \in Range(h.nodes) |-> h.din[l] + h.dout[l]]) \cup
  Cl("has_edge", \A k \in DOMAIN v.pairs : v.pairs[k][3] = HasEdge(h, v.pairs[k][1], v.pairs[k][2])) \cup
  Cl("edge_lookup", \A k \in DOMAIN v.look : LET i == v.look[k][1] j == v.look[k][2] IN
       v.look[k][3] = (IF HasEdge(h, i, j) THEN EdgeAttrs(h, i, j) ELSE <<>>))
=============================================================================
