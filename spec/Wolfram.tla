------------------------------- MODULE Wolfram -------------------------------
(* Rewriting of a sequence of relations (tuples of node labels) by a rule with left-hand patterns lhs and
   right-hand patterns rhs (tuples of symbols): each scan takes, for each left-hand pattern in turn, the
   first remaining relation that fits under one assignment of symbols. *)
EXTENDS SeqUtil
Fits(pat, rel, b) ==
  /\ Len(pat) = Len(rel)
  /\ \A i \in DOMAIN pat : pat[i] \in DOMAIN b => rel[i] = b[pat[i]]
  /\ \A i, j \in DOMAIN pat : pat[i] = pat[j] => rel[i] = rel[j]
Bind(pat, rel, b) == [s \in (DOMAIN b) \cup Range(pat) |-> IF s \in DOMAIN b THEN b[s] ELSE rel[CHOOSE i \in DOMAIN pat : pat[i] = s]]
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
\* one pattern: st = [rels: the remaining relations, b: the assignment, grp: the relations taken, hit: whether this one took any]
TryPattern(st, pat) ==
  LET K == {k \in DOMAIN st.rels : Fits(pat, st.rels[k], st.b)} IN
  IF K = {} THEN [st EXCEPT !.hit = FALSE]
  ELSE LET k == Min(K) IN [rels |-> RemoveAt(st.rels, k), b |-> Bind(pat, st.rels[k], st.b), grp |-> Append(st.grp, st.rels[k]), hit |-> TRUE]
Scan(rels, lhs) == FoldL(TryPattern, [rels |-> rels, b |-> EmptyFn, grp |-> <<>>, hit |-> FALSE], lhs)
\* all scans of one timestep: what remains, what was taken without completing a group, and the completed groups
RECURSIVE Scans(_, _, _, _)
Scans(rels, lhs, aside, groups) ==
  LET st == Scan(rels, lhs)
      full == Len(st.grp) = Len(lhs)
      g == IF full THEN Append(groups, [rels |-> st.grp, b |-> st.b]) ELSE groups
      a == IF full THEN aside ELSE aside \o st.grp
  IN IF st.hit THEN Scans(st.rels, lhs, a, g) ELSE [kept |-> st.rels \o a, groups |-> g]
Labels(config) == UNION {Range(config[k]) : k \in DOMAIN config}
Top(config) == Max(Labels(config) \cup {0})
SymbolsOf(pats) == UNION {Range(pats[k]) : k \in DOMAIN pats}

\* the graph a configuration is drawn as
Pairs(rel) == IF Len(rel) = 1 THEN <<<<rel[1], rel[1]>>>> ELSE [k \in 1..(Len(rel) - 1) |-> <<rel[k], rel[k + 1]>>]
AllPairs(config) == Flat([k \in DOMAIN config |-> Pairs(config[k])])

\* its connections, as documented: <<from, to, number of the relation, place in a relation of three or more or -1, whether it is unary>>
Connections(config) ==
  Flat([k \in DOMAIN config |-> LET q == Pairs(config[k]) n == Len(config[k]) IN
        [i \in DOMAIN q |-> <<q[i][1], q[i][2], k, IF n > 2 THEN i - 1 ELSE -1, IF n = 1 THEN 1 ELSE 0>>]])

\* Is next a result of rewriting config?  Fresh labels are left open: only distinct and above all in use.
Part(next, r, rhs, g, j) == next[Len(r.kept) + (g - 1) * Len(rhs) + j]
StepClauses(config, lhs, rhs, next) ==
  LET r == Scans(config, lhs, <<>>, <<>>)
      nk == Len(r.kept)
      fits == Len(next) = nk + Len(r.groups) * Len(rhs)
      fresh == SymbolsOf(rhs) \ SymbolsOf(lhs)
      \* (group, pattern, place) of every occurrence of a new symbol
      occ == {<<g, j, i>> \in (DOMAIN r.groups) \X (DOMAIN rhs) \X (1..Max({Len(rhs[x]) : x \in DOMAIN rhs} \cup {1})) : i <= Len(rhs[j]) /\ rhs[j][i] \in fresh}
      val(o) == Part(next, r, rhs, o[1], o[2])[o[3]]
      shape == fits /\ \A g \in DOMAIN r.groups, j \in DOMAIN rhs : Len(Part(next, r, rhs, g, j)) = Len(rhs[j])
  IN IF ~fits THEN {"C18.number_of_relations"}
     ELSE Cl("C18.kept", Bag(SubSeq(next, 1, nk)) = Bag(r.kept)) \cup
          IF ~shape THEN {"C18.arity"}
          ELSE Cl("C18.instances", \A g \in DOMAIN r.groups, j \in DOMAIN rhs : \A i \in DOMAIN rhs[j] :
                    rhs[j][i] \in fresh \/ Part(next, r, rhs, g, j)[i] = r.groups[g].b[rhs[j][i]]) \cup
               Cl("C18.fresh_consistent", \A o1, o2 \in occ : (o1[1] = o2[1] /\ rhs[o1[2]][o1[3]] = rhs[o2[2]][o2[3]]) => val(o1) = val(o2)) \cup
               Cl("C18.fresh_distinct", \A o1, o2 \in occ : (o1[1] = o2[1] /\ rhs[o1[2]][o1[3]] = rhs[o2[2]][o2[3]]) \/ val(o1) # val(o2)) \cup
               Cl("C18.fresh_new", \A o \in occ : val(o) > Top(config))
=============================================================================
