----------------------------- MODULE LangtonMC -----------------------------
(* The run of Langton's loop: after 151 timesteps there is a second, identical loop ten cells to the right
   of the first, which is what the published table and loop are for. *)
EXTENDS CTRBL, LangtonData, Json
CONSTANTS Rows, Cols, Row, Col, Steps
VARIABLES t, g, tf
Init == t = 0 /\ g = Stamp(Rows, Cols, LangtonLoop, Row, Col - 1) /\ tf = TableFn(LangtonTable, TRUE)
Next == t < Steps /\ t' = t + 1 /\ g' = GridStep(tf, Rows, Cols, g) /\ UNCHANGED tf
Spec == Init /\ [][Next]_<<t, g, tf>>
Published == Len(PublishedTable) = 219 /\ NoConflict(LangtonTable, TRUE)
Present(i, j) == \A r \in DOMAIN LangtonLoop, c \in 1..15 : g[(i + r - 1) * Cols + j + c] = LangtonLoop[r][c]
SelfReproduction == (t = 0 => Published /\ Present(Row, Col - 1)) /\ (t = 151 => Present(Row, Col - 1 + 10 + 1))
Known == AllKnown(tf, Rows, Cols, g)
Emit == PrintT("@@" \o ToJson([t |-> t', g |-> g']))
=============================================================================
