---------------------------- MODULE WolframTrace ----------------------------
(* Validates recorded runs of the Wolfram model: one event per timestep with the configuration and the
   network's nodes and edges. *)
EXTENDS Wolfram, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, cfg, n, bad
C == Traces[tr]
Judge(e) ==
  IF e.e = "end" THEN Cl("C18.failed", e.out = "ok") \cup Cl("C18.length", e.out = "ok" => n = C.steps)
  ELSE (IF n = 0 THEN Cl("C18.roundtrip", e.cfg = C.config) \cup Cl("C18.connections", Bag(e.conns) = Bag(Connections(C.config))) ELSE StepClauses(cfg, C.lhs, C.rhs, e.cfg)) \cup
       Cl("C18.network_edges", Bag(e.edges) = Bag(AllPairs(e.cfg))) \cup
       Cl("C18.network_nodes", Range(e.nodes) = Labels(e.cfg) /\ NoDup(e.nodes)) \cup
       Cl("C18.reread", e.again = e.cfg)
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ cfg = <<>> /\ n = 0 /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN
                /\ bad' = Judge(e)
                /\ n' = IF e.e = "cfg" THEN n + 1 ELSE n
                /\ cfg' = IF e.e = "cfg" THEN e.cfg ELSE cfg
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
