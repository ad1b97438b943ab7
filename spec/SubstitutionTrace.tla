------------------------- MODULE SubstitutionTrace -------------------------
(* Validates recorded runs of substitution systems: one event per timestep, and a last one with the
   reported forms of the trajectory. *)
EXTENDS Substitution, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, hist, bad
C == Traces[tr]
Judge(h, e) ==
  CASE e.e = "state" ->
         IF h = <<>> THEN Cl("C14.axiom", e.s = C.axiom)
         ELSE Cl("C14.rewrite", e.s = Rewrite(C.rules, C.consts, Last(h)))
    [] e.e = "end" ->
         Cl("C14.failed", e.out = "ok") \cup
         Cl("C14.length", e.out = "ok" => Len(h) = C.steps) \cup
         Cl("C14.to_string", e.tostring = <<>> \/ (Len(e.tostring) = Len(h) /\ \A k \in DOMAIN h : e.tostring[k] = h[k])) \cup
         Cl("C14.pad", e.pad = <<>> \/ e.pad = Padded(h, 0))
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ hist = <<>> /\ bad = {}
TraceNext == /\ pos < Len(C.ev)
             /\ pos' = pos + 1
             /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN
                /\ bad' = Judge(hist, e)
                \* a wrong string is reported, and the run is followed from what was observed
                /\ hist' = IF e.e = "state" THEN Append(hist, e.s) ELSE hist
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
