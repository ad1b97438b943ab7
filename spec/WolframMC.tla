------------------------------ MODULE WolframMC ------------------------------
(* The rewriting mechanism step by step (one pattern per action), with fresh labels numbered as they are
   needed, over small configurations and a list of rules; checked against Scans, and emitted for replay. *)
EXTENDS Wolfram, Json
CONSTANTS MaxRels, Steps, NRules, From
RuleList == <<
  [lhs |-> <<<<"x", "y">>>>, rhs |-> <<<<"x", "y">>, <<"y", "z">>>>],
  [lhs |-> <<<<"x", "y">>, <<"x", "z">>>>, rhs |-> <<<<"x", "y">>, <<"x", "w">>, <<"y", "w">>, <<"z", "w">>>>],
  [lhs |-> <<<<"x", "y">>, <<"y", "z">>>>, rhs |-> <<<<"x", "z">>>>],
  [lhs |-> <<<<"x", "x">>, <<"x", "y">>>>, rhs |-> <<<<"y", "y">>, <<"u">>>>],
  [lhs |-> <<<<"x">>>>, rhs |-> <<<<"x", "y">>, <<"y">>>>],
  [lhs |-> <<<<"x">>, <<"x", "y">>>>, rhs |-> <<<<"y", "u", "v">>>>],
  [lhs |-> <<<<"x", "y", "x">>>>, rhs |-> <<<<"x", "y">>>>],
  [lhs |-> <<<<"x", "y", "z">>, <<"z", "x">>>>, rhs |-> <<<<"u", "u", "x">>>>],
  [lhs |-> <<<<"x", "y">>, <<"y", "x">>, <<"x">>>>, rhs |-> <<>>],
  [lhs |-> <<<<"x", "y">>, <<"u">>, <<"y", "x">>>>, rhs |-> <<<<"u", "x">>, <<"w", "w">>>>] >>
VARIABLES rule, configs, rels, p, b, grp, aside, groups, done
vars == <<rule, configs, rels, p, b, grp, aside, groups, done>>
R == RuleList[rule]
Rels == {<<a>> : a \in 1..2} \cup ((1..2) \X (1..3)) \cup {<<1, 2, 1>>, <<1, 1, 2>>, <<3, 2, 1>>}
Init == /\ rule \in From..NRules
        /\ \E n \in 1..MaxRels : \E c \in [1..n -> Rels] : configs = <<c>> /\ rels = c
        /\ p = 1 /\ b = EmptyFn /\ grp = <<>> /\ aside = <<>> /\ groups = <<>> /\ done = FALSE
\* match pattern p, or fail to
Match == /\ ~done /\ p <= Len(R.lhs)
         /\ LET st == TryPattern([rels |-> rels, b |-> b, grp |-> grp, hit |-> FALSE], R.lhs[p]) IN
            /\ rels' = st.rels /\ b' = st.b
            /\ LET full == Len(st.grp) = Len(R.lhs) last == p = Len(R.lhs) IN
               /\ groups' = IF full THEN Append(groups, [rels |-> st.grp, b |-> st.b]) ELSE groups
               /\ grp' = IF last THEN <<>> ELSE st.grp
               /\ aside' = IF last /\ ~full THEN aside \o st.grp ELSE aside
               \* a scan in which the last pattern found nothing is the last
               /\ p' = IF ~last THEN p + 1 ELSE IF st.hit THEN 1 ELSE 99
            /\ UNCHANGED <<rule, configs, done>>
NewScan == p = 1 /\ grp = <<>> /\ b # EmptyFn /\ b' = EmptyFn /\ UNCHANGED <<rule, configs, rels, p, grp, aside, groups, done>>
Fresh == SymbolsOf(R.rhs) \ SymbolsOf(R.lhs)
\* the new symbols in the order of their first occurrence
RECURSIVE FirstSeen(_, _)
FirstSeen(s, acc) == IF s = <<>> THEN acc ELSE FirstSeen(Tail(s), IF Head(s) \in Range(acc) THEN acc ELSE Append(acc, Head(s)))
FreshSeq == SelectSeq(FirstSeen(Flat(R.rhs), <<>>), LAMBDA s : s \in Fresh)
Value(g, s) == IF s \in Fresh THEN Top(Last(configs)) + (g - 1) * Len(FreshSeq) + Pos(FreshSeq, s) ELSE groups[g].b[s]
Instances == Flat([g \in DOMAIN groups |-> [j \in DOMAIN R.rhs |-> [i \in DOMAIN R.rhs[j] |-> Value(g, R.rhs[j][i])]]])
Finish == /\ p = 99 /\ ~done
          /\ LET c == rels \o aside \o Instances IN
             /\ configs' = Append(configs, c) /\ rels' = c
             /\ done' = (Len(configs) = Steps \/ Len(c) > 12)
          /\ p' = 1 /\ b' = EmptyFn /\ grp' = <<>> /\ aside' = <<>> /\ groups' = <<>> /\ UNCHANGED rule
Next == (IF b # EmptyFn /\ p = 1 /\ grp = <<>> THEN NewScan ELSE Match) \/ Finish
Spec == Init /\ [][Next]_vars
Taken == Flat([g \in DOMAIN groups |-> groups[g].rels])
\* nothing is lost or duplicated while matching
Conserved == done \/ Bag(rels \o aside \o grp \o Taken) = Bag(Last(configs))
\* every group is an instance of the left-hand side
GroupsFit == \A g \in DOMAIN groups : groups[g].rels = [k \in DOMAIN R.lhs |-> [i \in DOMAIN R.lhs[k] |-> groups[g].b[R.lhs[k][i]]]]
\* the mechanism computes what Scans says
Agrees == p # 99 \/ LET s == Scans(Last(configs), R.lhs, <<>>, <<>>) IN s.kept = rels \o aside /\ s.groups = groups
StepsOk == \A k \in 1..(Len(configs) - 1) : StepClauses(configs[k], R.lhs, R.rhs, configs[k + 1]) = {}
Emit == ~(done' /\ ~done) \/ PrintT("@@" \o ToJson([lhs |-> R.lhs, rhs |-> R.rhs, configs |-> configs']))
=============================================================================
