----------------------------- MODULE Multigraph -----------------------------
(* The directed multigraph a Network stands for, with its edit operations.

   A graph is a record
     nodes : sequence of labels, in insertion order
     na    : label -> node attributes (a record: attribute name -> value)
     inc   : label -> sequence of <<source, sequence of edge attributes>>, one entry per distinct
             source, in the order in which the sources were first connected
     din, dout : label -> degree, maintained incrementally as the implementation does        *)
EXTENDS SeqUtil

EmptyGraph == [nodes |-> <<>>, na |-> EmptyFn, inc |-> EmptyFn, din |-> EmptyFn, dout |-> EmptyFn]

HasNode(g, l) == l \in Range(g.nodes)
Sources(g, j) == [k \in DOMAIN g.inc[j] |-> g.inc[j][k][1]]
HasEdge(g, i, j) == HasNode(g, j) /\ i \in Range(Sources(g, j))
EdgeAttrs(g, i, j) == g.inc[j][Pos(Sources(g, j), i)][2]

EnsureNode(g, l) ==
  IF HasNode(g, l) THEN g
  ELSE [nodes |-> Append(g.nodes, l), na |-> (l :> EmptyFn) @@ g.na, inc |-> (l :> <<>>) @@ g.inc,
        din |-> (l :> 0) @@ g.din, dout |-> (l :> 0) @@ g.dout]

AddNode(g, l, a) == LET h == EnsureNode(g, l) IN [h EXCEPT !.na[l] = a @@ h.na[l]]

AddEdge(g, i, j, a) ==
  LET h == EnsureNode(EnsureNode(g, i), j)
      s == Sources(h, j)
      e == IF i \in Range(s)
           THEN [h.inc[j] EXCEPT ![Pos(s, i)] = <<i, Append(h.inc[j][Pos(s, i)][2], a)>>]
           ELSE Append(h.inc[j], <<i, <<a>>>>)
      h2 == [h EXCEPT !.inc[j] = e]
      h3 == [h2 EXCEPT !.din[j] = @ + 1]
  IN [h3 EXCEPT !.dout[i] = @ + 1]

AddEdgeBidir(g, i, j, a) == AddEdge(AddEdge(g, i, j, a), j, i, a)

DropSource(entries, i) == SelectSeq(entries, LAMBDA e : e[1] # i)

\* removes all parallel edges i -> j; enabled only when there is one
RemoveEdge(g, i, j) ==
  LET n == Len(EdgeAttrs(g, i, j))
      h == [g EXCEPT !.inc[j] = DropSource(@, i)]
      h2 == [h EXCEPT !.din[j] = @ - n]
  IN [h2 EXCEPT !.dout[i] = @ - n]

\* removes a node and every edge at it; enabled only when the node exists
RemoveNode(g, l) ==
  LET keep == Range(g.nodes) \ {l}
      nIn(x) == IF HasEdge(g, l, x) THEN Len(EdgeAttrs(g, l, x)) ELSE 0     \* edges l -> x
      nOut(x) == IF HasEdge(g, x, l) THEN Len(EdgeAttrs(g, x, l)) ELSE 0    \* edges x -> l
  IN [nodes |-> SelectSeq(g.nodes, LAMBDA x : x # l),
      na |-> [x \in keep |-> g.na[x]],
      inc |-> [x \in keep |-> DropSource(g.inc[x], l)],
      din |-> [x \in keep |-> g.din[x] - nIn(x)],
      dout |-> [x \in keep |-> g.dout[x] - nOut(x)]]

\* updates the attributes of the edges i -> j at the given (1-based) positions; enabled only when i -> j exists
UpdateEdge(g, i, j, idx, a) ==
  LET k == Pos(Sources(g, j), i)
      es == g.inc[j][k][2]
  IN [g EXCEPT !.inc[j][k] = <<i, [m \in DOMAIN es |-> IF m \in idx THEN a @@ es[m] ELSE es[m]]>>]
UpdateAll(g, i, j, a) == UpdateEdge(g, i, j, DOMAIN EdgeAttrs(g, i, j), a)

-----------------------------------------------------------------------------
(* Views *)
InDegree(g, l) == SumSeq([k \in DOMAIN g.inc[l] |-> Len(g.inc[l][k][2])])
OutEdgesTo(g, l, j) == IF HasEdge(g, l, j) THEN Len(EdgeAttrs(g, l, j)) ELSE 0
OutDegree(g, l) == SumSeq([k \in DOMAIN g.nodes |-> OutEdgesTo(g, l, g.nodes[k])])
EdgesInto(g, j) ==
  Flat([k \in DOMAIN g.inc[j] |-> [m \in DOMAIN g.inc[j][k][2] |-> <<g.inc[j][k][1], j, g.inc[j][k][2][m]>>]])
Edges(g) == Flat([k \in DOMAIN g.nodes |-> EdgesInto(g, g.nodes[k])])

\* the graph with the given projection (nodes, na, inc), as recorded from the implementation
FromProjection(p) ==
  LET g == [nodes |-> p.nodes, na |-> p.na, inc |-> p.inc, din |-> EmptyFn, dout |-> EmptyFn]
  IN [g EXCEPT !.din = [l \in Range(g.nodes) |-> InDegree(g, l)], !.dout = [l \in Range(g.nodes) |-> OutDegree(g, l)]]
SameGraph(g, p) == g.nodes = p.nodes /\ g.na = p.na /\ g.inc = p.inc

-----------------------------------------------------------------------------
(* Invariants of every reachable graph *)
WellFormed(g) ==
  LET N == Range(g.nodes) IN
  /\ NoDup(g.nodes)
  /\ DOMAIN g.na = N /\ DOMAIN g.inc = N /\ DOMAIN g.din = N /\ DOMAIN g.dout = N
  /\ \A j \in N : NoDup(Sources(g, j)) /\ Range(Sources(g, j)) \subseteq N
                  /\ \A k \in DOMAIN g.inc[j] : g.inc[j][k][2] # <<>>
  /\ \A l \in N : g.din[l] = InDegree(g, l) /\ g.dout[l] = OutDegree(g, l)
  /\ SumSeq([k \in DOMAIN g.nodes |-> g.din[g.nodes[k]]]) = Len(Edges(g))
  /\ SumSeq([k \in DOMAIN g.nodes |-> g.dout[g.nodes[k]]]) = Len(Edges(g))
=============================================================================
