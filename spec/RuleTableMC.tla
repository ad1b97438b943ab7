----------------------------- MODULE RuleTableMC -----------------------------
(* Every walk from every table (of the requested kind) towards every target. *)
EXTENDS RuleTable, Json
CONSTANTS K, N, Targets
VARIABLES T0, T, q, tn, strong, iso, down, steps, done
vars == <<T0, T, q, tn, strong, iso, down, steps, done>>
TD == Targets
Init == /\ T0 \in [1..Size(K, N) -> 0..(K - 1)] /\ q \in 0..(K - 1) /\ tn \in 0..TD /\ strong \in BOOLEAN /\ iso \in BOOLEAN
        /\ (strong => Strong(K, N, T0)) /\ (iso => Isotropic(K, N, T0))
        /\ T = T0 /\ down = Above(K, N, T0, q, tn, TD) /\ steps = 0 /\ done = FALSE
Moves == WalkSteps(K, N, T, q, strong, iso, down)
Step == /\ ~done /\ ~Reached(K, N, T, q, tn, TD, down) /\ Moves # {}
        /\ \E F \in Moves : T' = F
        /\ steps' = steps + 1 /\ UNCHANGED <<T0, q, tn, strong, iso, down, done>>
Stop == /\ ~done /\ (Reached(K, N, T, q, tn, TD, down) \/ Moves = {})
        /\ done' = TRUE /\ UNCHANGED <<T0, T, q, tn, strong, iso, down, steps>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
KeepsFlags == (strong => Strong(K, N, T)) /\ (iso => Isotropic(K, N, T)) /\ Valid(K, N, T)
Terminates == steps <= Size(K, N)
EndsRight == done => Outcome(K, N, T0, T, q, tn, TD, strong, iso)
Monotone == IF down THEN Active(T, q) <= Active(T0, q) ELSE Active(T, q) >= Active(T0, q)
\* the relation is exact: every table it admits is reached by some walk (checked by replaying one backwards: some
\* permutation of the moves passes the target only at the last)
Emit == ~done' \/ PrintT("@@" \o ToJson([k |-> K, n |-> N, T0 |-> T0, q |-> q, tn |-> tn, td |-> TD, strong |-> strong, iso |-> iso, F |-> T']))
=============================================================================
