----------------------------- MODULE SandpileMC -----------------------------
(* All piles over a few heights on a small grid, with grain drops, in both boundary modes. *)
EXTENDS Sandpile, Json
CONSTANTS Rows, Cols, Heights, Closed, Steps, Drops
VARIABLES hist, drops
vars == <<hist, drops>>
Init == drops = <<>> /\ \E g \in [1..(Rows * Cols) -> Heights] : hist = <<g>>
Cur == Last(hist)
Next == /\ Len(hist) <= Steps
        /\ \E d \in Drops :
             /\ drops' = Append(drops, d)
             \* d = 0: no drop; d > 0: a grain on cell d - 1 after the topplings
             /\ LET g == PileNext(Rows, Cols, Closed, Cur) IN hist' = Append(hist, IF d = 0 THEN g ELSE [g EXCEPT ![d] = @ + 1])
Spec == Init /\ [][Next]_vars
Grain(d) == IF d = 0 THEN 0 ELSE 1
Conservation == \A k \in DOMAIN drops : LET a == Grains(hist[k]) b == Grains(hist[k + 1]) - Grain(drops[k]) IN IF Closed THEN b <= a ELSE b = a
NonNegative == \A x \in DOMAIN Cur : Cur[x] >= 0
StableStays == \A k \in DOMAIN drops : (~Closed /\ Stable(hist[k]) /\ drops[k] = 0) => hist[k + 1] = hist[k]
Emit == ~(Len(hist') = Steps + 1) \/ PrintT("@@" \o ToJson([rows |-> Rows, cols |-> Cols, closed |-> Closed, hist |-> hist', drops |-> drops']))
=============================================================================
