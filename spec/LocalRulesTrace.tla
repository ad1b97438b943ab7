--------------------------- MODULE LocalRulesTrace ---------------------------
(* Validates recorded rule applications. *)
EXTENDS LocalRules, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, bad
C == Traces[tr]
Judge(e) ==
  CASE e.e = "bin" -> Cl("C20.binary", e.out = BinRule(e.num, e.nb))
    [] e.e = "nks" -> Cl("C20.nks", e.out = NksRule(e.num, e.nb))
    [] e.e = "tot" -> IF TotInRange(e.num, e.k, Len(e.nb)) THEN Cl("C20.totalistic", e.out = TotRule(e.num, e.k, e.nb)) ELSE Cl("C20.out_of_range", e.out = -1)
    [] e.e = "major" -> Cl("C20.majority", Range(e.outs) \subseteq MostFrequent(e.nb)) \cup Cl("C20.majority_ties", MostFrequent(e.nb) \subseteq Range(e.outs))
    [] e.e = "life" -> Cl("C20.life", e.out = Life(e.cur, e.nb))
    [] e.e = "wire" -> Cl("C20.wireworld", e.out = Wire(e.cur, e.nb))
    \* conversions: bits (of the given width) of a number and back
    [] e.e = "bits" -> Cl("C20.int_to_bits", Len(e.bits) = e.width /\ \A i \in DOMAIN e.bits : e.bits[i] = Bit(e.num, Len(e.bits) - i)) \cup
                       Cl("C20.bits_to_int", Strip(e.back) = Strip(e.num))
    [] e.e = "end" -> Cl("C20.failed", e.out = "ok")
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr /\ bad' = Judge(C.ev[pos + 1])
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
