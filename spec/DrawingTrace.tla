---------------------------- MODULE DrawingTrace ----------------------------
(* Validates recorded drawable graphs, pages and layouts. *)
EXTENDS Drawing, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, bad
C == Traces[tr]
Judge(e) ==
  CASE e.e = "graph" ->
         Cl("C29.nodes", Range(e.nodes) = Elements(C.cfg) /\ NoDup(e.nodes)) \cup
         Cl("C29.edges", Same(e.edges, AllEdges(C.cfg)))
    [] e.e = "page" ->
         \* the page of a graph (gn, ge) lists its nodes and edges
         Cl("C29.page_nodes", Same(e.nodes, e.gn)) \cup
         Cl("C29.page_labels", e.labels = e.nodes) \cup
         Cl("C29.page_edges", Same(e.edges, e.ge)) \cup
         Cl("C29.page_self_references", LoopsDrawn(e.edges, e.sizes) /\ LoopsGrow(e.edges, e.sizes)) \cup
         Cl("C29.page_directed", \A k \in DOMAIN e.arrows : e.arrows[k] = "to")
    [] e.e = "written" -> Cl("C29.written", e.nodes = e.pnodes /\ e.edges = e.pedges /\ e.sizes = e.psizes)
    [] e.e = "layout" -> Cl("C29.layout", e.keys = [k \in 1..(e.nx * e.ny) |-> k - 1] /\ e.pos = GridPos(e.nx, e.ny))
    [] e.e = "end" -> Cl("C29.failed", e.out = "ok")
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ bad = {}
TraceNext == pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr /\ bad' = Judge(C.ev[pos + 1])
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
