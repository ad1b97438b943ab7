----------------------------- MODULE HopfieldMC -----------------------------
(* All sets of at most MaxP patterns over N nodes, all starting states, all update schedules. *)
EXTENDS Hopfield, Json
CONSTANTS N, MaxP
VARIABLES P, W, s, last
vars == <<P, W, s, last>>
Bip == {-1, 1}
Init == /\ \E m \in 1..MaxP : P \in [1..m -> [1..N -> Bip]]
        /\ W = Hebb(P) /\ s \in [1..N -> Bip] /\ last = s
Next == \E i \in 1..N : s' = Recall(W, s, i) /\ last' = s /\ UNCHANGED <<P, W>>
Fair == \A i \in 1..N : WF_s(s' = Recall(W, s, i) /\ last' = s /\ UNCHANGED <<P, W>>)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair
Symmetric == \A i, j \in 1..N : W[i][j] = W[j][i] /\ W[i][i] = 0
EnergyDescends == Energy2(W, s) <= Energy2(W, last)
\* between states that differ, the energy falls, or stays equal and a -1 becomes 1: no recall can go on for ever
Progress == s # last => Energy2(W, s) < Energy2(W, last) \/ SumSeq(s) > SumSeq(last)
SettledStays == Settled(W, last) => s = last
\* a single training pattern is recalled from itself
OnePattern == Len(P) = 1 => Settled(W, P[1]) \/ N = 1
Settles == <>[](Settled(W, s))
EmitTraining == ~(last' = last /\ s' = s) \/ PrintT("@@" \o ToJson([P |-> P, W |-> W]))
=============================================================================
