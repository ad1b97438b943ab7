------------------------------ MODULE Hopfield ------------------------------
(* Hebbian weights and asynchronous recall over bipolar states. *)
EXTENDS SeqUtil
Hebb(P) == LET n == Len(P[1]) IN [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE SumSeq([k \in DOMAIN P |-> P[k][i] * P[k][j]])]]
Field(W, s, i) == SumSeq([j \in DOMAIN s |-> W[i][j] * s[j]])
Sign(x) == IF x >= 0 THEN 1 ELSE -1
Recall(W, s, i) == [s EXCEPT ![i] = Sign(Field(W, s, i))]
\* twice the energy
Energy2(W, s) == -SumSeq([i \in DOMAIN s |-> s[i] * Field(W, s, i)])
Settled(W, s) == \A i \in DOMAIN s : s[i] = Sign(Field(W, s, i))
=============================================================================
