------------------------------ MODULE TSPTrace ------------------------------
(* Validates recorded distances, networks, tours and neuron updates. Points are integer grid points. *)
EXTENDS TSP, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, u, v, bad
C == Traces[tr]
P == C.P
Pairs == {<<i, j>> \in (0..(N(P) - 1)) \X (0..(N(P) - 1)) : i < j}
EdgeSet(es) == {{es[k][1], es[k][2]} : k \in DOMAIN es}
Judge(e) ==
  CASE e.e = "distances" ->
         Cl("C28.pairs", Len(e.d) = Cardinality(Pairs) /\ {{e.d[k][1], e.d[k][2]} : k \in DOMAIN e.d} = {{p[1], p[2]} : p \in Pairs}) \cup
         Cl("C28.distance", \A k \in DOMAIN e.d : Abs(e.d[k][3] - Dist(P[e.d[k][1] + 1], P[e.d[k][2] + 1])) <= 1)
    [] e.e = "adjacency" -> Cl("C28.adjacency", e.rows = N(P) * N(P) /\ e.cols = N(P) * N(P) /\ e.ones = N(P) * N(P) * N(P) * N(P))
    [] e.e = "tour" ->
         IF Conflict(e.M) THEN Cl("C28.refused", e.out = "refused")
         ELSE Cl("C28.accepted", e.out = "ok") \cup
              (IF e.out # "ok" THEN {} ELSE
               Cl("C28.tour_nodes", Range(e.nodes) = 0..(N(P) - 1) /\ Len(e.nodes) = N(P)) \cup
               Cl("C28.tour_edges", EdgeSet(e.edges) = Edges(e.M) /\ Len(e.edges) = Cardinality(Edges(e.M))) \cup
               Cl("C28.tour_length", Abs(e.length - Length(P, e.M)) <= N(P) + 1) \cup
               Cl("C28.tour_positions", e.pos = P))
    [] e.e = "permutation" -> Cl("C28.permutation", e.V = [x \in 1..N(P) |-> [c \in 1..N(P) |-> LET z == e.u[(x - 1) * N(P) + c] IN IF z > 0 THEN 2 ELSE IF z < 0 THEN 0 ELSE 1]])
    [] e.e = "state" ->
         IF u = <<>> \/ -1 \in Range(v) THEN {}
         ELSE Cl("C28.update", \A x, c \in 0..(N(P) - 1) : Abs(8 * e.u[x * N(P) + c + 1] - Next8(P, C.h, u, v, x, c)) <= 16 + 8 * C.h.D * N(P))
    [] e.e = "end" -> Cl("C28.failed", e.out = "ok")
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ u = <<>> /\ v = <<>> /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN
                /\ bad' = Judge(e)
                /\ u' = IF e.e = "state" THEN e.u ELSE u
                /\ v' = IF e.e = "state" THEN e.v ELSE v
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
