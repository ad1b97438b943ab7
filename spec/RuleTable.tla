------------------------------ MODULE RuleTable ------------------------------
(* Rule tables of k-state automata with neighbourhoods of n cells. A table is the sequence of its values in the
   numerical order of the neighbourhoods, read as base-k numbers: index 1 is 0...0. *)
EXTENDS SeqUtil
Size(k, n) == Pow(k, n)
Digit(k, n, x, p) == (x \div Pow(k, n - p)) % k
Digits(k, n, x) == [p \in 1..n |-> Digit(k, n, x, p)]
RECURSIVE Num(_, _)
Num(k, d) == IF d = <<>> THEN 0 ELSE Num(k, SubSeq(d, 1, Len(d) - 1)) * k + Last(d)
Mirror(k, n, x) == Num(k, Rev(Digits(k, n, x)))
Uniform(k, n, x) == \A p \in 1..n : Digit(k, n, x, p) = Digit(k, n, x, 1)
\* the number of entries that do not map to the quiescent state: lambda is this over the size
Active(T, q) == Cardinality({i \in DOMAIN T : T[i] # q})
Strong(k, n, T) == \A x \in 0..(Size(k, n) - 1) : Uniform(k, n, x) => T[x + 1] = Digit(k, n, x, 1)
Isotropic(k, n, T) == \A x \in 0..(Size(k, n) - 1) : T[x + 1] = T[Mirror(k, n, x) + 1]
Valid(k, n, T) == Len(T) = Size(k, n) /\ \A i \in DOMAIN T : T[i] \in 0..(k - 1)
\* the entries chosen at random
FreeEntries(k, n, strong, iso) == {x \in 0..(Size(k, n) - 1) : (strong => ~Uniform(k, n, x)) /\ (iso => x <= Mirror(k, n, x))}

(* The walk towards lambda = tn/td: above it, entries are made quiescent one by one; below it, entries are taken away
   from the quiescent state; an isotropic walk moves an entry together with its reflection. *)
Above(k, n, T, q, tn, td) == Active(T, q) * td > tn * Size(k, n)
Below(k, n, T, q, tn, td) == Active(T, q) * td < tn * Size(k, n)
Movable(k, n, T, q, strong, down) == {x \in 0..(Size(k, n) - 1) : (IF down THEN T[x + 1] # q ELSE T[x + 1] = q) /\ (strong => ~Uniform(k, n, x))}
Put(k, n, T, x, v, iso) == IF iso THEN [T EXCEPT ![x + 1] = v, ![Mirror(k, n, x) + 1] = v] ELSE [T EXCEPT ![x + 1] = v]
\* the possible results of one step
WalkSteps(k, n, T, q, strong, iso, down) ==
  UNION {{Put(k, n, T, x, v, iso) : v \in IF down THEN {q} ELSE 0..(k - 1) \ {q}} : x \in Movable(k, n, T, q, strong, down)}
Reached(k, n, T, q, tn, td, down) == IF down THEN ~Above(k, n, T, q, tn, td) ELSE ~Below(k, n, T, q, tn, td)

(* Where a walk from T may end, as a relation between its ends. *)
Outcome(k, n, T, F, q, tn, td, strong, iso) ==
  IF ~Above(k, n, T, q, tn, td) /\ ~Below(k, n, T, q, tn, td) THEN F = T
  ELSE LET down == Above(k, n, T, q, tn, td)
           moved == {x \in 0..(Size(k, n) - 1) : T[x + 1] # F[x + 1]} IN
       /\ \A x \in moved : IF down THEN F[x + 1] = q ELSE T[x + 1] = q
       /\ strong => \A x \in moved : ~Uniform(k, n, x)
       /\ iso => \A x \in moved : F[Mirror(k, n, x) + 1] = F[x + 1]
       \* the target is reached by the last move and not before, or nothing movable is left
       /\ IF Reached(k, n, F, q, tn, td, down)
          THEN \E x \in moved : LET P == IF iso THEN [F EXCEPT ![x + 1] = T[x + 1], ![Mirror(k, n, x) + 1] = T[Mirror(k, n, x) + 1]] ELSE [F EXCEPT ![x + 1] = T[x + 1]]
                                IN ~Reached(k, n, P, q, tn, td, down)
          ELSE Movable(k, n, F, q, strong, down) = {}
=============================================================================
