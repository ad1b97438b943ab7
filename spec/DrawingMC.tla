------------------------------ MODULE DrawingMC ------------------------------
(* All small configurations, for replay. *)
EXTENDS Drawing, Json
CONSTANTS MaxRel, MaxLen, Elems
VARIABLES cfg
Rels == UNION {[1..n -> 1..Elems] : n \in 1..MaxLen}
Init == cfg = <<>>
Next == Len(cfg) < MaxRel /\ \E r \in Rels : cfg' = Append(cfg, r)
Spec == Init /\ [][Next]_<<cfg>>
\* the number of edges of a configuration is the sum of its relations' lengths less one each
EdgeCount == Len(AllEdges(cfg)) = SumSeq([k \in DOMAIN cfg |-> Len(cfg[k]) - 1])
Ends == \A k \in DOMAIN AllEdges(cfg) : Range(AllEdges(cfg)[k]) \subseteq Elements(cfg)
\* relations may be listed in any order
Order == Same(AllEdges(cfg), AllEdges(Rev(cfg)))
Emit == PrintT("@@" \o ToJson([cfg |-> cfg', nodes |-> Elements(cfg'), edges |-> AllEdges(cfg')]))
=============================================================================
