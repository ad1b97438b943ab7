------------------------------ MODULE SeqUtil ------------------------------
(* Small operators shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[k] : k \in DOMAIN s}
EmptyFn == [x \in {} |-> x]
Last(s) == s[Len(s)]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

\* folds, by recursion over the length (all sequences here are short)
RECURSIVE FoldL(_, _, _)
FoldL(Op(_, _), acc, s) == IF s = <<>> THEN acc ELSE FoldL(Op, Op(acc, Head(s)), Tail(s))

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
SumSeq(s) == SumTo(s, Len(s))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Filter(s, Test(_)) == SelectSeq(s, Test)
Pos(s, x) == CHOOSE k \in DOMAIN s : s[k] = x
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
\* the bag (multiset) of the values of a sequence, as a function
Bag(s) == [v \in Range(s) |-> Count(s, v)]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
NoDup(s) == Cardinality(Range(s)) = Len(s)
RestrictTo(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Without(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]

\* some enumeration of a finite set
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* clause bookkeeping: Cl(name, holds) is the set of failing clause names
Cl(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
