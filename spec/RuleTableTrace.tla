--------------------------- MODULE RuleTableTrace ---------------------------
(* Validates recorded constructions of, walks over and look-ups in rule tables. *)
EXTENDS RuleTable, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, T, bad
C == Traces[tr]
K == C.k
N == C.n
Complete(e) == Len(e.keys) = Size(K, N) /\ \A i \in DOMAIN e.keys : e.keys[i] = Digits(K, N, i - 1)
Within(c, m, pn, pd) == LET dev == pd * c - pn * m IN dev * dev <= 144 * m * pn * (pd - pn)
FreeOf == FreeEntries(K, N, C.strong, C.iso)
Judge(e) ==
  CASE e.e = "random" ->
         LET ok == Complete(e) /\ Valid(K, N, e.T) IN
         Cl("C24.complete", Complete(e)) \cup Cl("C24.values", Valid(K, N, e.T)) \cup
         Cl("C24.quiescent", e.q \in 0..(K - 1) /\ (C.q >= 0 => e.q = C.q)) \cup
         (IF ~ok THEN {} ELSE
          Cl("C24.lambda", e.lam = Active(e.T, e.q) /\ e.off = 0) \cup
          Cl("C24.strong", C.strong => Strong(K, N, e.T)) \cup
          Cl("C24.isotropic", C.iso => Isotropic(K, N, e.T)) \cup
          LET F == FreeOf m == Cardinality(F) a == Cardinality({x \in F : e.T[x + 1] # e.q}) IN
          Cl("C24.extremes", (C.ln = 0 => a = 0) /\ (C.ln = C.ld => a = m)) \cup
          Cl("C24.lambda_rate", Within(a, m, C.ln, C.ld)) \cup
          Cl("C24.state_rate", \A v \in 0..(K - 1) \ {e.q} : Within(Cardinality({x \in F : e.T[x + 1] = v}), a, 1, K - 1)))
    [] e.e = "walk" ->
         LET ok == Complete(e) /\ Valid(K, N, e.T) IN
         Cl("C24.walk_complete", ok) \cup
         (IF ~ok THEN {} ELSE
          Cl("C24.walk_lambda", e.lam = Active(e.T, e.q) /\ e.off = 0) \cup
          Cl("C24.walk_flags", (C.strong => Strong(K, N, e.T)) /\ (C.iso => Isotropic(K, N, e.T))) \cup
          Cl("C24.walk", Outcome(K, N, T, e.T, e.q, e.tn, e.td, C.strong, C.iso)))
    [] e.e = "lookup" ->
         \* a cell's state is looked up by its neighbourhood, and refused when the table has no such entry
         Cl("C24.lookup", IF Len(e.nb) = N /\ (\A p \in 1..N : e.nb[p] \in 0..(K - 1)) /\ Num(K, e.nb) \notin Range(C.missing)
                          THEN e.got = T[Num(K, e.nb) + 1] ELSE e.got = -1)
    [] e.e = "end" -> Cl("C24.failed", e.out = "ok")
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ T = <<>> /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN bad' = Judge(e) /\ T' = IF e.e \in {"random", "walk"} THEN e.T ELSE T
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
