---------------------------- MODULE Substitution ----------------------------
(* Substitution systems: a string of symbols, rewritten as a whole at every timestep.
   rules is a sequence of <<window, production>>, all windows of the same length; constants are symbols that
   stand for themselves. *)
EXTENDS SeqUtil

Window(rules, consts) == IF rules # <<>> THEN Len(rules[1][1]) ELSE 1
Production(rules, consts, w) ==
  IF Len(w) = 1 /\ w[1] \in Range(consts) THEN w
  ELSE rules[CHOOSE k \in DOMAIN rules : rules[k][1] = w][2]
Positions(s, w) == IF Len(s) < w THEN {} ELSE 1..(Len(s) - w + 1)
Rewrite(rules, consts, s) ==
  LET w == Window(rules, consts)
      n == IF Len(s) < w THEN 0 ELSE Len(s) - w + 1
  IN Flat([k \in 1..n |-> Production(rules, consts, SubSeq(s, k, k + w - 1))])

Longest(ss) == Max({Len(ss[k]) : k \in DOMAIN ss})
Padded(ss, zero) == [k \in DOMAIN ss |-> [m \in 1..Longest(ss) |-> IF m <= Len(ss[k]) THEN ss[k][m] ELSE zero]]
=============================================================================
