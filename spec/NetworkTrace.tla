---------------------------- MODULE NetworkTrace ----------------------------
(* Validates recorded edit histories of real Network objects: after every call, every public view
   must be the view of the graph the history describes. *)
EXTENDS NetworkViews, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, g, bad

Ev(t, p) == Traces[t].ev[p]

\* v: the recorded views
ViewClauses(h, v) == Named("C01.", Views(h, v))

RotOk(h, r) == \A k \in DOMAIN r : HasNode(h, r[k][1]) /\ \A m \in DOMAIN r[k][2] : HasNode(h, r[k][2][m])

Judge(h, e) ==
  IF e.op = "rotation"
  THEN Cl("C01.rotation_accept", (e.out = "ok") = RotOk(h, e.rot)) \cup
       Cl("C01.rotation_value", e.out = "ok" => e.got = e.rot) \cup ViewClauses(h, e.v)
  ELSE IF e.op = "construct"
  THEN Cl("C01.construct", e.out = "ok") \cup ViewClauses(h, e.v)
  ELSE Cl("C01.accepted", (e.out = "ok") = Accepted(h, e)) \cup ViewClauses(Apply(h, e), e.v)

After(h, e) == CASE e.op = "rotation" -> h
                 [] e.op = "construct" -> h
                 [] OTHER -> Apply(h, e)

Construct(n) == LET RECURSIVE Add(_, _)
                    Add(h, k) == IF k = n THEN h ELSE Add(AddNode(h, "i:" \o ToString(k), EmptyFn), k + 1)
                IN Add(EmptyGraph, 0)

TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ g = Construct(Traces[tr].n) /\ bad = {}
TraceNext == /\ pos < Len(Traces[tr].ev)
             /\ pos' = pos + 1
             /\ tr' = tr
             /\ bad' = Judge(g, Ev(tr, pos + 1))
             /\ g' = After(g, Ev(tr, pos + 1))
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
