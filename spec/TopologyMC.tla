----------------------------- MODULE TopologyMC -----------------------------
(* The documented neighbourhoods of all small cellular automata, with the facts that hold of them;
   each is emitted for comparison with the networks the code builds. *)
EXTENDS GraphDefs, Json
CONSTANTS MaxN, MaxSide, MaxR
VARIABLES c
Fits(x) == IF x.c = "ca1" THEN 2 * x.r + 1 <= x.n
           ELSE /\ 2 * x.r + 1 <= x.rows /\ 2 * x.r + 1 <= x.cols
                /\ (x.type = "Hex" => x.r = 1 /\ x.rows % 2 = 0)
Init == c \in {x \in [c : {"ca1"}, n : 3..MaxN, r : 0..MaxR] : Fits(x)} \cup
              {x \in [c : {"ca2"}, rows : 3..MaxSide, cols : 3..MaxSide, r : 1..MaxR, type : {"Moore", "von Neumann", "Hex"}] : Fits(x)}
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c>>

N == IF c.c = "ca1" THEN c.n ELSE c.rows * c.cols
Hood(i) == IF c.c = "ca1" THEN Range(Ring(c.n, c.r, i)) ELSE Cells2d(c.rows, c.cols, c.type, c.r, i)
Cells == 0..(N - 1)
Hoods == TLCEval([i \in Cells |-> Hood(i)])
\* the shape and size of the neighbourhoods
Sizes == LET H == Hoods IN \A i \in Cells : i \in H[i] /\
           Cardinality(H[i]) = (IF c.c = "ca1" THEN 2 * c.r + 1
                                ELSE IF c.type = "Moore" THEN (2 * c.r + 1) * (2 * c.r + 1)
                                ELSE IF c.type = "von Neumann" THEN 2 * c.r * (c.r + 1) + 1 ELSE 7)
\* being neighbours is mutual
Mutual == LET H == Hoods IN \A i, j \in Cells : j \in H[i] <=> i \in H[j]
\* all cells are alike (in the hexagonal grid, all cells of every second row)
Shift(i, a, b) == (((i \div c.cols) + a) % c.rows) * c.cols + (((i % c.cols) + b) % c.cols)
Alike == LET H == Hoods IN
  IF c.c = "ca1" THEN \A i \in Cells : H[(i + 1) % N] = {(j + 1) % N : j \in H[i]}
  ELSE \A i \in Cells : LET a == IF c.type = "Hex" THEN 2 ELSE 1 IN
         H[Shift(i, a, 0)] = {Shift(j, a, 0) : j \in H[i]} /\ H[Shift(i, 0, 1)] = {Shift(j, 0, 1) : j \in H[i]}
\* the ring neighbourhood, left to right, has the cell itself in the centre
Centre == c.c = "ca1" => \A i \in Cells : Ring(c.n, c.r, i)[c.r + 1] = i
\* von Neumann neighbourhoods lie within the Moore ones, and with the hexagonal ones between them
Nested == c.c = "ca2" => \A i \in Cells : LET m == Cells2d(c.rows, c.cols, "Moore", c.r, i) IN
            Hood(i) \subseteq m /\ (c.type = "Hex" => Cells2d(c.rows, c.cols, "von Neumann", 1, i) \subseteq Hood(i))
EmitInit == PrintT("@@" \o ToJson([c |-> c, hoods |-> [i \in 1..N |-> IF c.c = "ca1" THEN Ring(c.n, c.r, i - 1) ELSE <<>>],
                                   sets |-> [i \in 1..N |-> Hood(i - 1)]]))
=============================================================================
