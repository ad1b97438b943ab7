----------------------------- MODULE FungalTrace -----------------------------
(* Validates recorded growth histories. R: resource of each cell in units of 1/C.unit; A: whether it is positive;
   L: links <<from, to, weight in 1/1200ths>>. *)
EXTENDS Fungal, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, L, R, A, n, cnt, bad
C == Traces[tr]
Layer == IF C.layer # <<>> THEN C.layer ELSE [x \in DOMAIN C.ic |-> IF C.ic[x] # 0 THEN 1 ELSE 0]
\* <<trials, successes>> of the growth from a cell of each degree, and of the choice of direction ("rich")
Kinds == 0..3
NoCount == [k \in 0..4 |-> <<0, 0>>]
Tally(e, NL) ==
  LET Open == {p \in Pairs(C.w, C.h) : ~Linked(L, p)}
      Src(p) == IF A[p[1] + 1] THEN p[1] ELSE p[2]
      One(k) == {p \in Open : A[p[1] + 1] # A[p[2] + 1] /\ Degree(L, Src(p)) = k}
      Both == {p \in Open : A[p[1] + 1] /\ A[p[2] + 1]} IN
  [k \in 0..4 |-> IF k = 4 THEN <<cnt[k][1] + Cardinality(Both), cnt[k][2] + Cardinality(Both \cap NL)>>
                  ELSE <<cnt[k][1] + Cardinality(One(k)), cnt[k][2] + Cardinality({p \in One(k) : Linked(NL, p)})>>]
\* k successes of m trials are consistent with probability 1/d: within eight standard deviations
Fits(t, d) == LET dev == d * t[2] - t[1] IN dev * dev <= 64 * t[1] * (d - 1)
Links(e) == {<<e.L[k][1], e.L[k][2]>> : k \in DOMAIN e.L}
Judge(e) ==
  CASE e.e = "step" /\ n = 0 -> Cl("C23.initial", e.L = <<>> /\ e.R = [x \in DOMAIN C.ic |-> C.ic[x] * C.unit])
    [] e.e = "step" /\ n > 0 ->
         LET NL == Links(e) IN
         Cl("C23.adjacent", \A l \in NL : l[1] \in Cells(C.w, C.h) /\ l[2] \in Near(C.w, C.h, l[1])) \cup
         Cl("C23.one_direction", (\A l \in NL : <<l[2], l[1]>> \notin NL) /\ Len(e.L) = Cardinality(NL)) \cup
         Cl("C23.never_drops", L \subseteq NL) \cup
         Cl("C23.grows_from_resource", \A l \in NL \ L : A[l[1] + 1]) \cup
         Cl("C23.rich_pairs", \A p \in Pairs(C.w, C.h) : (A[p[1] + 1] /\ A[p[2] + 1]) => Linked(NL, p)) \cup
         Cl("C23.last_site", \A p \in Pairs(C.w, C.h) : (~Linked(L, p) /\ A[p[1] + 1] # A[p[2] + 1]
                               /\ Degree(L, IF A[p[1] + 1] THEN p[1] ELSE p[2]) = MaxDegree - 1) => Linked(NL, p)) \cup
         Cl("C23.split", \A k \in DOMAIN e.L : Abs(e.L[k][3] * OutDeg(NL, e.L[k][1]) - 1200) <= 4) \cup
         (IF n <= C.exact
          THEN Cl("C23.resource", \A c \in Cells(C.w, C.h) : Abs(12 * (e.R[c + 1] - Absorbed(C.absorb * C.unit, A, Layer, c)) - Inflow12(NL, R, c)) <= 60)
          ELSE {}) \cup
         Cl("C23.alive", \A c \in Cells(C.w, C.h) : e.A[c + 1] = AliveNext(NL, A, Layer, C.absorb, c))
    [] e.e = "end" -> Cl("C23.failed", e.out = "ok") \cup
                      (IF e.out = "ok" THEN Cl("C23.length", n = C.steps) \cup
                                            Cl("C23.reproducible", C.again = SubSeq(C.ev, 1, C.steps)) \cup
                                            Cl("C23.growth_rate", \A k \in 0..3 : Fits(cnt[k], 4 - k)) \cup
                                            Cl("C23.direction_rate", Fits(cnt[4], 2)) ELSE {})
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ L = {} /\ R = <<>> /\ A = <<>> /\ n = 0 /\ cnt = NoCount /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN
                /\ bad' = Judge(e)
                /\ IF e.e = "step" THEN /\ n' = n + 1 /\ L' = Links(e) /\ R' = e.R /\ A' = e.A
                                        /\ cnt' = IF n > 0 THEN Tally(e, Links(e)) ELSE cnt
                   ELSE UNCHANGED <<n, L, R, A, cnt>>
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
