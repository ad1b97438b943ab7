---------------------------- MODULE HelpersTrace ----------------------------
(* Validates recorded calls of the helpers. *)
EXTENDS Helpers, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, bad
C == Traces[tr]
Uniformly(c, m, k) == LET dev == k * c - m IN dev * dev <= 144 * m * (k - 1)
Judge(e) ==
  CASE e.e = "simple" -> Cl("C27.simple", e.got = Simple(e.size, e.val)) \cup Cl("C27.type", Range(e.types) \subseteq {e.dtype})
    [] e.e = "simple2d" -> Cl("C27.simple2d", e.got = Simple2d(e.rows, e.cols, e.val)) \cup Cl("C27.type", Range(e.types) \subseteq {e.dtype})
    [] e.e = "random" ->
         \* values in thousandths
         IF ~RegionValid(e.size, e.n) THEN Cl("C27.refused", e.out = "refused")
         ELSE Cl("C27.accepted", e.out = "ok") \cup
              (IF e.out # "ok" THEN {} ELSE
               Cl("C27.random_size", Len(e.got) = e.size) \cup Cl("C27.type", Range(e.types) \subseteq {e.dtype}) \cup
               (IF Len(e.got) # e.size THEN {} ELSE
                Cl("C27.empty", \A i \in 1..e.size : i \notin Region(e.size, e.n) => e.got[i] = 1000 * e.empty) \cup
                Cl("C27.below_k", \A i \in Region(e.size, e.n) : IF e.dtype = "int" THEN e.got[i] % 1000 = 0 /\ e.got[i] \div 1000 \in 0..(e.k - 1)
                                                                ELSE e.got[i] >= 0 /\ e.got[i] <= 1000 * (e.k - 1)) \cup
                (IF e.dtype = "int" THEN Cl("C27.all_states", \A v \in 0..(e.k - 1) : Uniformly(Cardinality({i \in Region(e.size, e.n) : e.got[i] = 1000 * v}), e.n, e.k))
                 ELSE {})))
    [] e.e = "table" -> Cl("C27.table", e.got = [t \in DOMAIN e.acts |-> InLabelOrder(e.acts[t])])
    [] e.e = "ncr" -> Cl("C27.ncr", e.a = NcrMod(10007, e.n, e.r) /\ e.b = NcrMod(9973, e.n, e.r) /\ (e.n < e.r => e.zero))
    [] e.e = "ncr_bad" -> Cl("C27.ncr_refused", e.out = "refused")
    [] e.e = "bits" -> Cl("C27.binarize", e.got = Binarized(e.vs))
    [] e.e = "end" -> Cl("C27.failed", e.out = "ok")
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ bad = {}
TraceNext == pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr /\ bad' = Judge(C.ev[pos + 1])
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
