--------------------------- MODULE SubstitutionMC ---------------------------
(* All substitution systems over a small alphabet, run for a few timesteps; every run can be replayed. *)
EXTENDS Substitution, Json
CONSTANTS Alphabet, W, MaxProd, MaxAxiom, Steps, MaxLen
VARIABLES rules, strings, done
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
WindowSeq == SeqOf([1..W -> Alphabet])
Init == /\ \E f \in [DOMAIN WindowSeq -> Strings(MaxProd)] : rules = [k \in DOMAIN WindowSeq |-> <<WindowSeq[k], f[k]>>]
        /\ \E a \in Strings(MaxAxiom) \ {<<>>} : strings = <<a>>
        /\ done = FALSE
Cur == strings[Len(strings)]
Step == /\ Len(strings) <= Steps /\ Len(Cur) <= MaxLen
        /\ strings' = Append(strings, Rewrite(rules, <<>>, Cur))
        /\ done' = FALSE /\ UNCHANGED rules
Stop == ~done /\ ~(Len(strings) <= Steps /\ Len(Cur) <= MaxLen) /\ done' = TRUE /\ UNCHANGED <<rules, strings>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_<<rules, strings, done>>
Productions == {rules[k][2] : k \in DOMAIN rules}
\* the empty string is a fixed point, and lengths are bounded by the longest production
LengthBound == \A k \in 1..(Len(strings) - 1) :
  Len(strings[k + 1]) <= Max({Len(p) : p \in Productions}) * Len(strings[k]) /\ (strings[k] = <<>> => strings[k + 1] = <<>>)
\* rewriting may be split anywhere, the pieces overlapping by one symbol less than the window
Homomorphism == \A k \in DOMAIN strings : \A m \in W..Len(strings[k]) :
  LET s == strings[k] IN
  Rewrite(rules, <<>>, s) = Rewrite(rules, <<>>, SubSeq(s, 1, m)) \o Rewrite(rules, <<>>, SubSeq(s, m - W + 2, Len(s)))
Identity == (\A k \in DOMAIN rules : rules[k][2] = <<rules[k][1][1]>>) => \A k \in 1..(Len(strings) - 1) :
  strings[k + 1] = SubSeq(strings[k], 1, Max({0, Len(strings[k]) - W + 1}))
Emit == ~(done' /\ ~done) \/ PrintT("@@" \o ToJson([rules |-> rules, strings |-> strings]))
=============================================================================
