------------------------------ MODULE FungalMC ------------------------------
(* Every growth history on a small grid, every resource layer and every initial placement, qualitatively. *)
EXTENDS Fungal
CONSTANTS W, H
VARIABLES links, alive, layer, prev
vars == <<links, alive, layer, prev>>
N == W * H
Init == /\ links = {} /\ prev = <<{}, <<>>>>
        /\ \E A \in SUBSET Cells(W, H) : alive = [c \in 1..N |-> (c - 1) \in A]
        /\ \E Y \in SUBSET Cells(W, H) : layer = [c \in 1..N |-> IF (c - 1) \in Y THEN 1 ELSE 0]
Choices == {f \in [Pairs(W, H) -> {"none", "forward", "backward"}] : \A p \in Pairs(W, H) : f[p] \in GrowthChoices(links, alive, p)}
Next == \E ch \in Choices :
          /\ links' = Grown(links, ch)
          /\ alive' = [c \in 1..N |-> AliveNext(links', alive, layer, 1, c - 1)]
          /\ prev' = <<links, alive>> /\ UNCHANGED layer
Spec == Init /\ [][Next]_vars
OneDirection == \A l \in links : <<l[2], l[1]>> \notin links
OnlyAdjacent == \A l \in links : l[2] \in Near(W, H, l[1])
DegreeBound == \A c \in Cells(W, H) : Degree(links, c) <= MaxDegree
\* an open pair always has a free site at either end, so the growth probability 1 / (4 - degree) is well defined
FreeSite == \A p \in Pairs(W, H) : ~Linked(links, p) => Degree(links, p[1]) < MaxDegree /\ Degree(links, p[2]) < MaxDegree
NeverDrops == prev[1] \subseteq links
LayerLives == prev[2] # <<>> => \A c \in Cells(W, H) : (prev[2][c + 1] /\ layer[c + 1] = 1) => alive[c + 1]
\* a link is only ever grown from a cell that had resource
GrownFromAlive == prev[2] # <<>> => \A l \in links \ prev[1] : prev[2][l[1] + 1]
RichPairsLinked == prev[2] # <<>> => \A p \in Pairs(W, H) : (prev[2][p[1] + 1] /\ prev[2][p[2] + 1]) => Linked(links, p)
Frozen == (\A c \in 1..N : ~alive[c]) => ~ENABLED (\E ch \in Choices : Grown(links, ch) # links)
=============================================================================
