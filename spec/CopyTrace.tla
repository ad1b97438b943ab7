----------------------------- MODULE CopyTrace -----------------------------
(* A network and a copy of it (made directly or through its compressed form) as two independent graphs.
   A history edits a network, copies it, and goes on editing either side; after every call the views of
   both sides are those of their own graph. *)
EXTENDS NetworkViews, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, orig, copy, bad

\* an in-place change of one attribute of one of the parallel edges i -> j, or of a node
InPlace(g, e) ==
  IF e.op = "set_edge" THEN (IF HasEdge(g, e.i, e.j) THEN UpdateEdge(g, e.i, e.j, {e.k}, e.a) ELSE g)
  ELSE IF HasNode(g, e.i) THEN [g EXCEPT !.na[e.i] = e.a @@ @] ELSE g
Edit(g, e) == IF e.op \in {"set_edge", "set_node"} THEN InPlace(g, e) ELSE Apply(g, e)

\* what two graphs that compare equal have in common at the least
Alike(o, c) == /\ Range(o.nodes) = Range(c.nodes)
               /\ o.din = c.din /\ o.dout = c.dout
               /\ \A l \in Range(o.nodes) :
                    /\ DOMAIN o.na[l] = DOMAIN c.na[l]
                    /\ Range(Sources(o, l)) = Range(Sources(c, l))
                    /\ \A i \in Range(Sources(o, l)) : LET x == EdgeAttrs(o, i, l) y == EdgeAttrs(c, i, l) IN
                         Len(x) = Len(y) /\ \A k \in DOMAIN x : DOMAIN x[k] = DOMAIN y[k]
Judge(o, c, e) ==
  (IF e.out # "ok" THEN {"C02.failed"} ELSE {}) \cup
  Named("C02.original.", Views(o, e.vo)) \cup
  (IF e.copied THEN Named("C02.copy.", Views(c, e.vc)) ELSE {}) \cup
  (IF e.op = "copy"
   THEN Cl("C02.not_equal", e.eq) \cup
        Cl("C02.rotation_lost", e.roto = <<>> \/ e.rotc # <<>>) \cup
        Cl("C02.rotation_wrong", e.rotc = <<>> \/ e.rotc = e.roto) \cup
        Cl("C02.aliased", ~e.same)
   ELSE IF e.copied THEN Cl("C02.equal_though_different", e.eq => Alike(o, c)) ELSE {})

TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ orig = EmptyGraph /\ copy = EmptyGraph /\ bad = {}
TraceNext == /\ pos < Len(Traces[tr].ev)
             /\ pos' = pos + 1
             /\ tr' = tr
             /\ LET e == Traces[tr].ev[pos + 1] IN
                /\ orig' = IF e.op # "copy" /\ e.side = "orig" THEN Edit(orig, e) ELSE orig
                /\ copy' = IF e.op = "copy" THEN orig
                           ELSE IF e.side = "copy" THEN Edit(copy, e) ELSE copy
                /\ bad' = Judge(orig', copy', e)
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
