---------------------------- MODULE SandpileLive ----------------------------
(* A closed sandpile always comes to rest (without further drops). *)
EXTENDS Sandpile
CONSTANTS Rows, Cols, Heights
VARIABLE g
Init == g \in [1..(Rows * Cols) -> Heights]
Next == g' = PileNext(Rows, Cols, TRUE, g)
Spec == Init /\ [][Next]_g /\ WF_g(Next)
Settles == <>[](Stable(g))
=============================================================================
