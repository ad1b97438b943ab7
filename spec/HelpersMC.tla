------------------------------ MODULE HelpersMC ------------------------------
(* Enumerates the small cases of the helpers, for replay. *)
EXTENDS Helpers, Json
CONSTANTS MaxSize
VARIABLES c
Init == c \in [k : {"simple"}, size : 1..MaxSize, val : {1, 5}] \cup [k : {"simple2d"}, rows : 1..MaxSize, cols : 1..MaxSize, val : {1, 4}]
             \cup [k : {"region"}, size : 0..MaxSize, n : 0..(MaxSize + 1)] \cup [k : {"ncr"}, n : 0..(2 * MaxSize), r : 0..(2 * MaxSize)]
             \cup [k : {"bits"}, a : 0..(2 * MaxSize), b : {0, 1, 3, 8, 200}]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c>>
Answer == CASE c.k = "simple" -> Simple(c.size, c.val)
            [] c.k = "simple2d" -> Simple2d(c.rows, c.cols, c.val)
            [] c.k = "region" -> IF RegionValid(c.size, c.n) THEN [i \in 1..c.size |-> IF i \in Region(c.size, c.n) THEN 0 ELSE 9] ELSE <<-1>>
            [] c.k = "ncr" -> <<NcrMod(1000003, c.n, c.r)>>
            [] c.k = "bits" -> Binarized(<<c.a, c.b>>)
EmitInit == PrintT("@@" \o ToJson([c |-> c, answer |-> Answer]))
=============================================================================
