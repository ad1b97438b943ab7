---------------------------- MODULE TurtleTrace ----------------------------
(* Validates recorded turtle programs and L-system renderings: one event per executed command, with the turtle's
   position, heading and drawing after it. *)
EXTENDS Turtle, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, t, bad
C == Traces[tr]
\* 4 * (b - a) is the displacement d4, up to rounding; m is the distance in quarters
Moved(a, b, d4, m) == Abs(4 * (b - a) - d4) <= Abs(m) + 6
Planned == IF C.fam = "render" THEN Commands(C.bind, Expand(C.rules, C.axiom, C.gens)) ELSE C.prog
Ok(e) == "x" \in DOMAIN e
After(e) ==
  CASE e.c = "fwd" -> [t EXCEPT !.x = e.x, !.y = e.y, !.segs = Append(@, e.seg)]
    [] e.c = "rot" -> [t EXCEPT !.o = @ + e.v]
    [] e.c = "push" -> [t EXCEPT !.stack = Append(@, <<t.x, t.y, t.o>>)]
    [] e.c = "pop" -> IF t.stack = <<>> THEN t ELSE LET p == Last(t.stack) IN [t EXCEPT !.x = p[1], !.y = p[2], !.o = p[3], !.stack = SubSeq(@, 1, Len(@) - 1)]
Same(e, x) == Abs(e.x - x.x) <= 1 /\ Abs(e.y - x.y) <= 1
Judge(e) ==
  CASE e.e = "cmd" ->
         LET k == pos + 1 a == After(e) IN
         Cl("C26.order", k \in DOMAIN Planned /\ Planned[k].c = e.c /\ Planned[k].v = e.v) \cup
         Cl("C26.heading", Norm(e.o) = Norm(a.o)) \cup
         Cl("C26.segments", e.nseg = Len(a.segs)) \cup
         Cl("C26.distance_from_origin", LET x == e.x \div 10000 y == e.y \div 10000 IN Abs(e.abs * e.abs - x * x - y * y) <= 2 * e.abs + 2 * Abs(x) + 2 * Abs(y) + 4) \cup
         (CASE e.c = "fwd" ->
                 Cl("C26.segment_starts_here", e.seg # <<>> /\ Abs(e.seg[1] - t.x) <= 1 /\ Abs(e.seg[2] - t.y) <= 1) \cup
                 Cl("C26.segment_ends_there", e.seg # <<>> /\ Abs(e.seg[3] - e.x) <= 1 /\ Abs(e.seg[4] - e.y) <= 1) \cup
                 Cl("C26.forward", Moved(t.x, e.x, Dx4(t.o, e.v), e.v) /\ Moved(t.y, e.y, Dy4(t.o, e.v), e.v))
            [] e.c \in {"rot", "push"} -> Cl("C26.stays", Same(e, t))
            [] e.c = "pop" -> Cl("C26.pop", Same(e, a)))
    [] e.e = "drawn" -> Cl("C26.plot", Bag(e.segs) = Bag(t.segs))
    [] e.e = "frames" -> Cl("C26.animation", /\ Len(e.frames) = Min({Len(t.segs), 30})
                                             /\ \A k \in DOMAIN e.frames : Range(e.frames[k]) = Range(SubSeq(t.segs, 1, k))) \cup
                         Cl("C26.animation_pace", e.pace = e.interval /\ e.given = e.repeats) \cup
                         Cl("C26.animation_view", \A k \in DOMAIN t.segs : LET g == t.segs[k] IN
                            /\ e.xlim[1] <= g[1] + 1 /\ e.xlim[1] <= g[3] + 1 /\ g[1] <= e.xlim[2] + 1 /\ g[3] <= e.xlim[2] + 1
                            /\ e.ylim[1] <= g[2] + 1 /\ e.ylim[1] <= g[4] + 1 /\ g[2] <= e.ylim[2] + 1 /\ g[4] <= e.ylim[2] + 1)
    [] e.e = "end" -> Cl("C26.failed", e.out = "ok") \cup
                      (IF e.out = "ok" THEN Cl("C26.all_executed", Cardinality({k \in 1..pos : C.ev[k].e = "cmd"}) = Len(Planned)) \cup Cl("C26.drawing", e.segs = t.segs) ELSE {})
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ t = Start(Traces[tr].x, Traces[tr].y, Traces[tr].o) /\ bad = {}
TraceNext == /\ pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr
             /\ LET e == C.ev[pos + 1] IN bad' = Judge(e) /\ t' = IF e.e = "cmd" THEN After(e) ELSE t
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
