------------------------------ MODULE TurtleMC ------------------------------
(* All programs up to a length over moves of one unit, right-angle turns, pushes and pops. *)
EXTENDS Turtle, Json
CONSTANTS MaxLen
VARIABLES t, prog, from
vars == <<t, prog, from>>
Cmds == {[c |-> "fwd", v |-> 4], [c |-> "fwd", v |-> 12], [c |-> "rot", v |-> 180], [c |-> "rot", v |-> -360], [c |-> "push", v |-> 0], [c |-> "pop", v |-> 0]}
Init == prog = <<>> /\ from \in {<<0, 0, 0>>, <<2, -1, 270>>} /\ t = Start(from[1] * Unit, from[2] * Unit, 2 * from[3])
Next == Len(prog) < MaxLen /\ \E c \in Cmds : Enabled(t, c) /\ t' = Exec(t, c) /\ prog' = Append(prog, c) /\ UNCHANGED from
Spec == Init /\ [][Next]_vars
Kinds(p, k) == Cardinality({i \in DOMAIN p : p[i].c = k})
OneSegPerMove == Len(t.segs) = Kinds(prog, "fwd")
Balance == Len(t.stack) = Kinds(prog, "push") - Kinds(prog, "pop")
\* without pops the drawing is connected
Connected == Kinds(prog, "pop") = 0 => \A k \in DOMAIN t.segs : k = 1 \/ (t.segs[k][1] = t.segs[k - 1][3] /\ t.segs[k][2] = t.segs[k - 1][4])
Lengths == \A k \in DOMAIN t.segs : Abs(t.segs[k][3] - t.segs[k][1]) + Abs(t.segs[k][4] - t.segs[k][2]) \in {Unit, 3 * Unit}
\* a balanced bracket leaves position and heading as they were: every pop goes back to where the last open push was
PopRestores == [][(Len(prog') > Len(prog) /\ Last(prog').c = "pop") => <<t'.x, t'.y, t'.o>> = Last(t.stack) /\ t'.segs = t.segs]_vars
SegsOnlyGrow == [][SubSeq(t'.segs, 1, Len(t.segs)) = t.segs]_vars
Emit == ~(Len(prog') = MaxLen) \/ PrintT("@@" \o ToJson([from |-> from, prog |-> prog', x |-> t'.x, y |-> t'.y, o |-> t'.o, segs |-> t'.segs]))
=============================================================================
