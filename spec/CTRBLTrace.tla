----------------------------- MODULE CTRBLTrace -----------------------------
(* Validates recorded runs of CTRBL rules (their rule table, neighbourhood map and trajectory). *)
EXTENDS CTRBL, LangtonData, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, g, n, tf, bad
C == Traces[tr]
Tab == IF C.langton THEN LangtonTable ELSE C.table
Loops == FoldL(LAMBDA acc, l : LET s == Stamp(C.rows, C.cols, LangtonLoop, l[1], l[2] - 1) IN [x \in DOMAIN acc |-> IF s[x] # 0 THEN s[x] ELSE acc[x]],
               [x \in 1..(C.rows * C.cols) |-> 0], C.loops)
Judge(e) ==
  CASE e.e = "table" -> Cl("C19.rule_table", {<<e.t[k][1], e.t[k][2]>> : k \in DOMAIN e.t} = Closure(Tab, C.rot) /\ Len(e.t) = Cardinality(DOMAIN tf))
    [] e.e = "map" -> Cl("C19.neighbourhood_map", Len(e.m) = C.rows * C.cols /\ \A k \in DOMAIN e.m : e.m[k] = NbCells(C.rows, C.cols, k - 1))
    [] e.e = "loops" -> Cl("C19.initial_loops", e.g = Loops)
    [] e.e = "step" ->
         IF n = 0 THEN Cl("C19.initial", e.g = C.ic)
         ELSE IF ~AllKnown(tf, C.rows, C.cols, g) THEN {"C19.silent_value"}
         ELSE Cl("C19.step", e.g = GridStep(tf, C.rows, C.cols, g))
    [] e.e = "end" ->
         IF e.out = "ok" THEN Cl("C19.length", n = C.steps)
         \* an error is due when, and only when, the state reached has an unknown neighbourhood
         ELSE Cl("C19.failed", SubSeq(e.out, 1, 4) = "exc:" /\ n > 0 /\ n < C.steps /\ ~AllKnown(tf, C.rows, C.cols, g))
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ g = <<>> /\ n = 0 /\ bad = {} /\ tf = TableFn(Tab, C.rot)
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ UNCHANGED <<tr, tf>>
             /\ LET e == C.ev[pos + 1] IN
                /\ bad' = Judge(e)
                /\ n' = IF e.e = "step" THEN n + 1 ELSE n
                /\ g' = IF e.e = "step" THEN e.g ELSE g
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
