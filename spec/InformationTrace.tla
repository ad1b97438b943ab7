-------------------------- MODULE InformationTrace --------------------------
(* Validates recorded information measures; h is the reported value in units of 1/Unit bits, -1 a refusal. *)
EXTENDS Information, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, bad
C == Traces[tr]
Near(a, b, tol) == Abs(a - b) <= tol
Refused == -1000000
Judge(e) ==
  CASE e.e = "H" -> Cl("C25.entropy", Near(Len(e.x) * e.h, NH(e.x), 2 * Len(e.x) + 4))
    [] e.e = "J" -> Cl("C25.joint", Near(Len(e.x) * e.h, NJ(e.x, e.y), 2 * Len(e.x) + 4))
    [] e.e = "MI" -> Cl("C25.mutual", Near(Len(e.x) * e.h, NMI(e.x, e.y), 4 * Len(e.x) + 8))
    \* long sequences: h in units of 1/10000 bits
    [] e.e = "HL" -> Cl("C25.entropy", Near(Len(e.x) * e.h, NHLong(e.x), 6 * Len(e.x)))
    [] e.e = "JL" -> Cl("C25.joint", Near(Len(e.x) * e.h, NHLong(Zip(e.x, e.y)), 6 * Len(e.x)))
    [] e.e = "MIL" -> Cl("C25.mutual", Near(Len(e.x) * e.h, NHLong(e.x) + NHLong(e.y) - NHLong(Zip(e.x, e.y)), 18 * Len(e.x)))
    [] e.e = "avgH" -> Cl("C25.average_entropy", Near(Len(e.rows) * Len(e.rows[1]) * e.h, MNAvgH(e.rows), Len(e.rows[1]) * (2 * Len(e.rows) + 4)))
    [] e.e = "avgMI" ->
         IF e.d < 1 \/ e.d >= Len(e.rows) THEN Cl("C25.refused", e.h = Refused)
         ELSE Cl("C25.average_mutual", e.h # Refused /\ Near((Len(e.rows) - e.d) * Len(e.rows[1]) * e.h, MNAvgMI(e.rows, e.d), Len(e.rows[1]) * (4 * Len(e.rows) + 8)))
    [] e.e = "empty" -> Cl("C25.refused_empty", e.h = Refused)
    [] e.e = "end" -> Cl("C25.failed", e.out = "ok")
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ bad = {}
TraceNext == pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr /\ bad' = Judge(C.ev[pos + 1])
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
