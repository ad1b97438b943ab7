---------------------------- MODULE HopfieldTrace ----------------------------
(* Validates recorded training and recall of Hopfield nets. *)
EXTENDS Hopfield, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, s, bad
C == Traces[tr]
W == Hebb(C.P)
N == Len(C.P[1])
Judge(e) ==
  CASE e.e = "train" ->
         Cl("C22.hebb", e.W = W) \cup
         Cl("C22.nodes", Range(e.nodes) = 0..(N - 1) /\ Len(e.nodes) = N /\ e.n = N) \cup
         Cl("C22.edges", Len(e.edges) = Cardinality({<<i, j>> \in (1..N) \X (1..N) : W[i][j] # 0}) /\
                         \A i, j \in 1..N : W[i][j] # 0 => \E k \in DOMAIN e.edges : e.edges[k] = <<i - 1, j - 1, W[i][j]>>)
    [] e.e = "start" -> Cl("C22.start", TRUE)
    [] e.e = "step" ->
         Cl("C22.one_node", Cardinality({i \in DOMAIN s : e.s[i] # s[i]}) <= 1) \cup
         Cl("C22.update", \E i \in DOMAIN s : e.s = Recall(W, s, i)) \cup
         Cl("C22.energy", Energy2(W, e.s) <= Energy2(W, s)) \cup
         Cl("C22.settled_stays", Settled(W, s) => e.s = s)
    [] e.e = "end" -> Cl("C22.failed", e.out = "ok")
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ s = <<>> /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN bad' = Judge(e) /\ s' = IF e.e \in {"start", "step"} THEN e.s ELSE s
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
