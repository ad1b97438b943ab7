---------------------------- MODULE TuringTrace ----------------------------
(* Validates recorded runs of the two Turing machine forms; one event per configuration. *)
EXTENDS Turing, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, cfg, k, bad
C == Traces[tr]
Start == [tape |-> C.tape, q |-> C.q, pos |-> C.pos]
\* the configuration the next event must show
Expected(c, n) == IF n = 0 THEN Start ELSE TMStep(C.table, c)
May(c, n) == n = 0 \/ (Defined(C.table, c) /\ (C.form = "tape" \/ GoesOn(C.term, C.hasterm, C.limit, n, c.q)))
Judge(c, n, e) ==
  IF e.e = "cfg" THEN
    IF ~May(c, n) THEN {"C17.ran_on"}
    ELSE LET x == Expected(c, n) IN
      Cl("C17.tape", e.tape = x.tape) \cup Cl("C17.state", e.q \in {x.q, "?"}) \cup Cl("C17.head", e.pos = x.pos) \cup
      \* the head is reported once, at its position, as the text of its state
      Cl("C17.annotation", e.marks = <<<<x.pos, C.text[x.q]>>>>)
  ELSE
    IF e.out = "ok" THEN
      Cl("C17.missing_reported", IF C.form = "tape" THEN ~Stuck(C.table, Start, C.limit - 1) ELSE ~HeadStuck(C.table, C.term, C.hasterm, C.limit, 1, Start)) \cup
      Cl("C17.stopped", n > 0 /\ IF C.form = "tape" THEN n = C.limit ELSE ~GoesOn(C.term, C.hasterm, C.limit, n, c.q))
    ELSE Cl("C17.failed", SubSeq(e.out, 1, 4) = "exc:" /\
            IF C.form = "tape" THEN Stuck(C.table, Start, C.limit - 1) ELSE HeadStuck(C.table, C.term, C.hasterm, C.limit, 1, Start))
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ cfg = [q |-> ""] /\ k = 0 /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN
                /\ bad' = Judge(cfg, k, e)
                /\ k' = IF e.e = "cfg" THEN k + 1 ELSE k
                /\ cfg' = IF e.e = "cfg" THEN IF May(cfg, k) THEN Expected(cfg, k) ELSE cfg ELSE cfg
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
