---------------------------- MODULE HopfieldLive ----------------------------
(* Recall under fair schedules comes to rest. *)
EXTENDS Hopfield
CONSTANTS N, MaxP
VARIABLES P, s, turn
Bip == {-1, 1}
Init == /\ \E m \in 1..MaxP : P \in [1..m -> [1..N -> Bip]]
        /\ s \in [1..N -> Bip] /\ turn = {}
\* one cycle updates every node once, in any order
Next == \E i \in 1..N : /\ i \notin turn
                        /\ s' = Recall(Hebb(P), s, i) /\ P' = P
                        /\ turn' = IF Cardinality(turn) = N - 1 THEN {} ELSE turn \cup {i}
vars == <<P, s, turn>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Settles == <>[](Settled(Hebb(P), s))
=============================================================================
