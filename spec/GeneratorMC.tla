----------------------------- MODULE GeneratorMC -----------------------------
(* The graphs that the generators name, for all small parameters, with independent counts and symmetries;
   each is emitted for comparison with the networks the code builds. *)
EXTENDS GraphDefs, Json
CONSTANTS MaxDim, MaxDims, MaxCells, MaxN, Firsts
VARIABLES c
Dims == UNION {[1..d -> 1..MaxDim] : d \in 1..MaxDims}
Init == c \in {x \in [c : {"lattice"}, dim : Dims, periodic : BOOLEAN, loops : BOOLEAN, first : Firsts] : Size(x.dim) <= MaxCells} \cup
              [c : {"complete"}, n : 1..MaxN] \cup
              {x \in [c : {"small_world"}, n : 3..MaxN, k : {2, 4, 6}] : x.k < x.n}
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c>>

P_ == CASE c.c = "lattice" -> LatticePairs(c)
       [] c.c = "complete" -> {q \in Labels(c.n) \X Labels(c.n) : q[1] # q[2]}
       [] c.c = "small_world" -> RingLattice(c.n, c.k)
N == IF c.c = "lattice" THEN Size(c.dim) ELSE c.n
\* an axis of length 1 has no steps, one of length 2 wraps onto the same step
StepsAlong(d) == LET n == c.dim[d] IN IF c.periodic /\ n > 2 THEN 2 * n ELSE 2 * (n - 1)
Symmetric == LET P == TLCEval(P_) IN \A q \in P : <<q[2], q[1]>> \in P
Counts == Cardinality(P_) =
  CASE c.c = "lattice" -> SumSeq([d \in DOMAIN c.dim |-> (N \div c.dim[d]) * StepsAlong(d)]) + (IF c.loops THEN N ELSE 0)
    [] c.c = "complete" -> N * (N - 1)
    [] c.c = "small_world" -> N * c.k
NoLoops == (c.c = "lattice" => ~c.loops) => \A q \in P_ : q[1] # q[2]
\* a periodic lattice and the small-world ring look the same from every cell
Regular == LET P == TLCEval(P_) IN (c.c = "lattice" => c.periodic) => \A q \in P : Cardinality({z \in P : z[1] = q[1]}) = Cardinality(P) \div N
Connected ==
  LET P == TLCEval(P_)
      Ls == {q[1] : q \in P} \cup {q[2] : q \in P}
      RECURSIVE Reach(_)
      Reach(S) == LET S2 == S \cup {q[2] : q \in {z \in P : z[1] \in S}} IN IF S2 = S THEN S ELSE Reach(S2)
  IN N > 1 => Cardinality(Ls) = N /\ Reach({CHOOSE l \in Ls : TRUE}) = Ls
EmitInit == PrintT("@@" \o ToJson([c |-> c, pairs |-> P_, n |-> N]))
=============================================================================
