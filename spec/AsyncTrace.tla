----------------------------- MODULE AsyncTrace -----------------------------
(* Validates recorded runs under the asynchronous wrapper, one event per timestep: the wrapped rule's
   calls (node, result) and the activities before and after. *)
EXTENDS Async, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, ran, bad
C == Traces[tr]
N == Len(C.order)
Sched(t, r, l) ==
  CASE C.kind = "fixed" -> l = Scheduled(C.order, t)
    \* given only n: some permutation of all the nodes, discovered during the first cycle, then repeated
    [] C.kind = "n" -> IF t <= N THEN l \in Range(C.order) \ Range(r) ELSE l = r[t - N]
    [] C.kind = "rand" -> l \in Range(C.order)
Judge(r, e) ==
  IF e.e = "end" THEN Cl("C15.failed", e.out = "ok") \cup Cl("C15.length", e.out = "ok" => Len(r) = C.steps)
  ELSE IF e.e = "shuffles" THEN
       \* (by chance, all alike once in 10^14 runs)
       Cl("C15.shuffled", e.out = "ok" /\ (\A k \in DOMAIN e.orders : Range(e.orders[k]) = Range(C.order) /\ Len(e.orders[k]) = N) /\ Cardinality(Range(e.orders)) > 1) \cup
       Cl("C15.reshuffled", e.out = "ok" /\ Cardinality(Range(e.cycles)) > 1)
  ELSE Cl("C15.exactly_one", Len(e.calls) = 1) \cup
       Cl("C15.given_label", \A k \in DOMAIN e.calls : e.calls[k][1] \in Range(C.order)) \cup
       Cl("C15.schedule", Len(e.calls) # 1 \/ Sched(Len(r) + 1, r, e.calls[1][1])) \cup
       Cl("C15.others_keep", \A n \in DOMAIN e.prev : e.next[n] = e.prev[n] \/ \E k \in DOMAIN e.calls : e.calls[k][1] = n) \cup
       Cl("C15.nodes", DOMAIN e.next = DOMAIN e.prev) \cup
       Cl("C15.applied", \A k \in DOMAIN e.calls : e.next[e.calls[k][1]] = e.calls[k][2]) \cup
       Cl("C15.context", e.ctxok)
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ ran = <<>> /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN
                /\ bad' = Judge(ran, e)
                /\ ran' = IF e.e # "step" THEN ran ELSE Append(ran, IF e.calls = <<>> THEN "<none>" ELSE e.calls[1][1])
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
