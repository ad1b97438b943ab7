---------------------------- MODULE SandpileTrace ----------------------------
(* Validates recorded sandpile runs: one event per timestep, with the grains dropped in it. *)
EXTENDS Sandpile, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, g, n, bad
C == Traces[tr]
WithDrops(p, ds) == [x \in DOMAIN p |-> p[x] + SumSeq([k \in DOMAIN ds |-> IF ds[k][1] = x - 1 THEN ds[k][2] ELSE 0])]
DropSum(ds) == SumSeq([k \in DOMAIN ds |-> ds[k][2]])
Judge(e) ==
  CASE e.e = "step" /\ n = 0 -> Cl("C21.initial", e.g = C.ic)
    [] e.e = "step" /\ n > 0 ->
         LET x == WithDrops(PileNext(C.rows, C.cols, C.closed, g), e.drops) IN
         Cl("C21.topple", \A c \in Cells(C.rows, C.cols) : ~OnEdge(C.rows, C.cols, c) => e.g[c + 1] = x[c + 1]) \cup
         Cl("C21.boundary", \A c \in Cells(C.rows, C.cols) : OnEdge(C.rows, C.cols, c) => e.g[c + 1] = x[c + 1]) \cup
         Cl("C21.conservation", LET a == Grains(g) b == Grains(e.g) - DropSum(e.drops) IN IF C.closed THEN b <= a ELSE b = a)
    [] e.e = "end" -> Cl("C21.failed", e.out = "ok") \cup Cl("C21.length", e.out = "ok" => n = C.steps)
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ g = <<>> /\ n = 0 /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN
                /\ bad' = Judge(e)
                /\ n' = IF e.e = "step" THEN n + 1 ELSE n
                /\ g' = IF e.e = "step" THEN e.g ELSE g
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
