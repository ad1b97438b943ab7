---------------------------- MODULE InformationMC ----------------------------
(* All pairs of sequences of equal length over a small alphabet: the measures obey the laws of information. *)
EXTENDS Information, Json
CONSTANTS MaxN, Alphabet
VARIABLES x, y
vars == <<x, y>>
Init == x = <<>> /\ y = <<>>
Next == Len(x) < MaxN /\ \E a, b \in 1..Alphabet : x' = Append(x, a) /\ y' = Append(y, b)
Spec == Init /\ [][Next]_vars
\* rounding of the table
Eps == 2 * Len(x) + 4
Bounds == x # <<>> => NH(x) >= -Eps /\ NH(x) <= CL(Len(x)) + Eps
Certain == (x # <<>> /\ Cardinality(Range(x)) = 1) => NH(x) = 0
JointBounds == x # <<>> => NJ(x, y) >= NH(x) - Eps /\ NJ(x, y) >= NH(y) - Eps /\ NJ(x, y) <= NH(x) + NH(y) + Eps
Symmetric == x # <<>> => NMI(x, y) = NMI(y, x)
Self == x # <<>> => NMI(x, x) = NH(x) /\ NJ(x, x) = NH(x)
Renaming == x # <<>> => NH([k \in DOMAIN x |-> Alphabet + 1 - x[k]]) = NH(x)
Reordering == x # <<>> => NH(Rev(x)) = NH(x)
Emit == Len(x') = 0 \/ PrintT("@@" \o ToJson([x |-> x', y |-> y', h |-> NH(x'), j |-> NJ(x', y'), mi |-> NMI(x', y')]))
=============================================================================
