-------------------------------- MODULE TSPMC --------------------------------
(* All 0/1 matrices with one claim per row: the tours, for replay. *)
EXTENDS TSP, Json
CONSTANTS MaxN
VARIABLES M
Row(n, c) == [d \in 1..n |-> IF d = c THEN 1 ELSE 0]
Init == \E n \in 2..MaxN : \E f \in [1..n -> 1..n] : M = [x \in 1..n |-> Row(n, f[x])]
Next == FALSE /\ UNCHANGED M
Spec == Init /\ [][Next]_<<M>>
P == SubSeq(<<<<0, 0>>, <<3, 4>>, <<10, 1>>, <<2, 9>>, <<7, 7>>>>, 1, Len(M))
\* without conflict, every point has exactly two legs, and following them visits all points
RECURSIVE Visit(_, _)
Visit(S, x) == IF x \in S THEN S ELSE Visit(S \cup {x}, LET k == CHOOSE c \in DOMAIN M : Legs(M)[c][1] = x IN Legs(M)[k][2])
Cycle == ~Conflict(M) => /\ Visit({}, 0) = 0..(Len(M) - 1)
                         /\ \A x \in 0..(Len(M) - 1) : Cardinality({c \in DOMAIN M : Legs(M)[c][1] = x}) = 1 /\ Cardinality({c \in DOMAIN M : Legs(M)[c][2] = x}) = 1
Permutation == Conflict(M) <=> \E c \in 1..Len(M) : \A x \in DOMAIN M : M[x][c] = 0
\* the length does not depend on where the tour starts
Rotated == [x \in DOMAIN M |-> [c \in DOMAIN M |-> M[x][(c % Len(M)) + 1]]]
RotationInvariant == ~Conflict(M) => Length(P, M) = Length(P, Rotated) /\ Edges(M) = Edges(Rotated)
EmitInit == PrintT("@@" \o ToJson([M |-> M, P |-> P, conflict |-> Conflict(M), edges |-> IF Conflict(M) THEN {} ELSE Edges(M), length |-> IF Conflict(M) THEN 0 ELSE Length(P, M)]))
=============================================================================
