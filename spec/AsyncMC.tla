------------------------------ MODULE AsyncMC ------------------------------
(* The asynchronous wrapper as the mechanism the code uses - a cursor into the update order and a count
   of the listed nodes visited, advanced while the engine sweeps the nodes in node order - together with
   the schedule it has to implement.  Checked for every node order, every update order over every
   non-empty subset of the nodes, and (Shuffle) every choice of reshuffling. *)
EXTENDS Async, Json
CONSTANTS Labels, Steps, K, Shuffle
VARIABLES nodes, order, curr, napp, i, t, S, S2, ran, log
vars == <<nodes, order, curr, napp, i, t, S, S2, ran, log>>
\* the wrapped rule: depends on the node, the timestep, its own and its predecessor's previous activity
Wrapped(n, tt, st) == LET p == Pos(nodes, n)
                          l == IF p = 1 THEN nodes[Len(nodes)] ELSE nodes[p - 1]
                      IN (st[n] + 2 * st[l] + tt + 1) % K
Init == /\ nodes \in Perms(Labels)
        /\ order \in Orders(Labels)
        /\ curr = 1 /\ napp = 0 /\ i = 1 /\ t = 1
        /\ S = [n \in Labels |-> (n * n) % K] /\ S2 = S
        /\ ran = {} /\ log = <<>>
Visit == /\ i <= Len(nodes) /\ t <= Steps
         /\ LET n == nodes[i]
                na == IF n \in Range(order) THEN napp + 1 ELSE napp
                hit == n = order[curr]
                eoc == na = Len(order)
            IN /\ S2' = IF hit THEN [S2 EXCEPT ![n] = Wrapped(n, t, S)] ELSE S2
               /\ ran' = IF hit THEN ran \cup {n} ELSE ran
               /\ napp' = IF eoc THEN 0 ELSE na
               /\ curr' = IF eoc THEN (curr % Len(order)) + 1 ELSE curr
               /\ IF eoc /\ Shuffle THEN order' \in Perms(Range(order)) ELSE UNCHANGED order
         /\ i' = i + 1
         /\ UNCHANGED <<nodes, t, S, log>>
EndSweep == /\ i = Len(nodes) + 1
            /\ i' = 1 /\ t' = t + 1 /\ S' = S2 /\ ran' = {}
            /\ log' = Append(log, [ran |-> ran, acts |-> [k \in DOMAIN nodes |-> S2[nodes[k]]]])
            /\ UNCHANGED <<nodes, order, curr, napp, S2>>
Next == Visit \/ EndSweep
Spec == Init /\ [][Next]_vars
\* what the mechanism implements
OnePerStep == i = Len(nodes) + 1 => Cardinality(ran) = 1 /\ ran \subseteq Range(order)
OthersKeep == \A n \in Labels : S2[n] # S[n] => n \in ran
FollowsOrder == Shuffle \/ (i = Len(nodes) + 1 => ran = {Scheduled(order, t)} /\ S2 = AsyncStep(S, Scheduled(order, t), Wrapped(Scheduled(order, t), t, S)))
CleanAtSweep == i = 1 => napp = 0
Emit == ~(t' = Steps + 1 /\ t = Steps) \/ PrintT("@@" \o ToJson([nodes |-> nodes, order |-> order, k |-> K,
                      acts |-> [x \in DOMAIN log' |-> log'[x].acts], ran |-> [x \in DOMAIN log' |-> CHOOSE n \in log'[x].ran : TRUE]]))
=============================================================================
