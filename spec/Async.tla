------------------------------- MODULE Async -------------------------------
(* Asynchronous (sequential) updating: which node is scheduled at which timestep. *)
EXTENDS SeqUtil
\* the node updated at timestep t >= 1 under a fixed update order
Scheduled(order, t) == order[((t - 1) % Len(order)) + 1]
\* one timestep: the scheduled node takes the wrapped rule's value, all others keep theirs
AsyncStep(S, sched, val) == [S EXCEPT ![sched] = val]
Perms(S) == {f \in [1..Cardinality(S) -> S] : Range(f) = S}
\* all duplicate-free sequences over non-empty subsets of S
Orders(S) == UNION {Perms(T) : T \in SUBSET S \ {{}}}
=============================================================================
