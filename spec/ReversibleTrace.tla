--------------------------- MODULE ReversibleTrace ---------------------------
(* Validates recorded runs under the reversible wrapper: the forward run (with what the wrapped rule
   returned for every node), and the run from its last two states in swapped roles. *)
EXTENDS Reversible, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, fwd, bwd, bad
C == Traces[tr]
\* fwd and bwd start with the past condition and the initial condition
Judge(f, b, e) ==
  CASE e.e = "fwd" -> Cl("C16.xor", e.act = RevStep(e.res, f[Len(f) - 1])) \cup Cl("C16.binary", Range(e.act) \subseteq {0, 1})
    [] e.e = "bwd" -> Cl("C16.xor", e.act = RevStep(e.res, b[Len(b) - 1])) \cup
                      Cl("C16.retrace", Len(b) + 1 <= Len(f) => e.act = f[Len(f) - Len(b)])
    [] e.e = "end" -> Cl("C16.failed", e.out = "ok") \cup Cl("C16.length", e.out = "ok" => Len(f) = C.steps + 1 /\ Len(b) = Len(f))
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ fwd = <<Traces[tr].past, Traces[tr].ic>> /\ bwd = <<>> /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1]
                    b0 == IF bwd = <<>> THEN <<Last(fwd), fwd[Len(fwd) - 1]>> ELSE bwd IN
                /\ bad' = Judge(fwd, b0, e)
                /\ fwd' = IF e.e = "fwd" THEN Append(fwd, e.act) ELSE fwd
                /\ bwd' = IF e.e = "bwd" THEN Append(b0, e.act) ELSE IF e.e = "end" THEN b0 ELSE bwd
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
