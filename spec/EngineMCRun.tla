---------------------------- MODULE EngineMCRun ----------------------------
(* Named constant values for the runs of EngineMC. *)
EXTENDS EngineMC
CONSTANTS Orders, TopoRules, Perts, Memos, Pasts, Inputs, Nets

E == [w |-> "i:1"]
NetNamed(n) ==
  CASE n = "pair" -> [nodes |-> <<"i:0", "i:1">>, na |-> [l \in {"i:0", "i:1"} |-> EmptyFn],
                      inc |-> ("i:0" :> <<<<"i:1", <<E>>>>, <<"i:0", <<EmptyFn>>>>>> @@ "i:1" :> <<<<"i:0", <<E, EmptyFn>>>>>>), rot |-> <<>>]
    [] n = "pairrot" -> [nodes |-> <<"i:0", "i:1">>, na |-> [l \in {"i:0", "i:1"} |-> EmptyFn],
                      inc |-> ("i:0" :> <<<<"i:1", <<E>>>>, <<"i:0", <<EmptyFn>>>>>> @@ "i:1" :> <<<<"i:0", <<E, EmptyFn>>>>>>),
                      rot |-> <<<<"i:0", <<"i:0", "i:1">>>>, <<"i:1", <<"i:1", "i:0", "i:0">>>>>>]
    [] n = "chain" -> [nodes |-> <<"s:B", "i:5", "s:A">>, na |-> [l \in {"s:B", "i:5", "s:A"} |-> EmptyFn],
                      inc |-> ("s:B" :> <<>> @@ "i:5" :> <<<<"s:B", <<E>>>>, <<"s:A", <<E>>>>>> @@ "s:A" :> <<<<"i:5", <<E>>>>>>), rot |-> <<>>]
    [] n = "one" -> [nodes |-> <<"i:4">>, na |-> ("i:4" :> EmptyFn), inc |-> ("i:4" :> <<<<"i:4", <<EmptyFn>>>>>>), rot |-> <<>>]
V2 == {"i:0", "i:1"}
InitsOf(n) == [Range(NetNamed(n).nodes) -> V2]
PastOf(n, w) == [k \in 1..w |-> [l \in Range(NetNamed(n).nodes) |-> IF k % 2 = 0 THEN "i:2" ELSE "i:" \o ToString(k + 2)]]
InputNamed(i) ==
  CASE i = "t0" -> [kind |-> "timesteps", n |-> 0]
    [] i = "t1" -> [kind |-> "timesteps", n |-> 1]
    [] i = "t2" -> [kind |-> "timesteps", n |-> 2]
    [] i = "t3" -> [kind |-> "timesteps", n |-> 3]
    [] i = "t4" -> [kind |-> "timesteps", n |-> 4]
    [] i = "t5" -> [kind |-> "timesteps", n |-> 5]
    [] i = "l0" -> [kind |-> "list", items |-> <<>>]
    [] i = "l2" -> [kind |-> "list", items |-> <<<<"all", "i:3">>, <<"per", ("i:0" :> "i:8" @@ "i:1" :> "i:9" @@ "i:4" :> "i:6")>>>>]
    [] i = "f2" -> [kind |-> "fn", max |-> 2]
    [] i = "f3" -> [kind |-> "fn", max |-> 3]
CsDef == {[order |-> o, topo |-> tp, rule |-> TRUE, pert |-> p, memo |-> m, copy |-> TRUE, input |-> InputNamed(i),
           past |-> PastOf(n, w), init |-> s, net |-> NetNamed(n)] :
             o \in Orders, tp \in TopoRules, p \in Perts, m \in Memos, i \in Inputs, w \in Pasts, n \in Nets, s \in UNION {InitsOf(x) : x \in Nets}}
CsOk == {x \in CsDef : DOMAIN x.init = Range(x.net.nodes) /\ (x.memo = "ordered" => x.net.rot # <<>>) /\ (x.memo = "bag" => x.net.rot = <<>>)}
\* a born node is not covered by a list of inputs per node
ItemSet == IF Life # {"none"} THEN {<<"all", "i:3">>, <<"all", "i:4">>} ELSE {<<"all", "i:3">>, <<"per", ("i:0" :> "i:8" @@ "i:1" :> "i:9" @@ "i:4" :> "i:6")>>}
=============================================================================
