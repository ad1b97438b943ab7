------------------------------ MODULE CTRBLMC ------------------------------
(* Quadratic tables over two states on every small grid. *)
EXTENDS CTRBL, Json
CONSTANTS Rows, Cols, Steps, Linear, Quads
VARIABLES coef, quad, tf, hist
vars == <<coef, quad, tf, hist>>
Keys == [1..5 -> {0, 1}]
Image(a, q, k) == (SumSeq([x \in 1..5 |-> a[x] * k[x]]) + k[q[1]] * k[q[2]]) % 2
Init == /\ coef \in Linear /\ quad \in Quads
        /\ tf = [k \in Keys |-> Image(coef, quad, k)]
        /\ \E g \in [1..(Rows * Cols) -> {0, 1}] : hist = <<g>>
Next == Len(hist) <= Steps /\ hist' = Append(hist, GridStep(tf, Rows, Cols, Last(hist))) /\ UNCHANGED <<coef, quad, tf>>
Spec == Init /\ [][Next]_vars
Shift(g, di, dj) == [x \in 1..(Rows * Cols) |-> g[Cell(Rows, Cols, (x - 1) \div Cols + di, ((x - 1) % Cols) + dj) + 1]]
\* the dynamics do not depend on where the origin is
Translation == \A di \in {0, 1}, dj \in {0, 1} : GridStep(tf, Rows, Cols, Shift(Last(hist), di, dj)) = Shift(GridStep(tf, Rows, Cols, Last(hist)), di, dj)
\* a rotation-closed table gives dynamics that commute with turning a square grid
Closed == \A k \in Keys : \A m \in 0..3 : tf[Turned(k, m)] = tf[k]
Quarter(g) == [x \in 1..(Rows * Cols) |-> g[Cell(Rows, Cols, (x - 1) % Cols, Rows - 1 - ((x - 1) \div Cols)) + 1]]
Rotation == (Closed /\ Rows = Cols) => GridStep(tf, Rows, Cols, Quarter(Last(hist))) = Quarter(GridStep(tf, Rows, Cols, Last(hist)))
\* neighbours: mutual, and five different cells
Geometry == \A c \in 0..(Rows * Cols - 1) : LET n == NbCells(Rows, Cols, c) IN
  NoDup(n) /\ NbCells(Rows, Cols, n[2])[4] = c /\ NbCells(Rows, Cols, n[3])[5] = c
Emit == ~(Len(hist') = Steps + 1) \/ PrintT("@@" \o ToJson([rows |-> Rows, cols |-> Cols, coef |-> coef, quad |-> quad,
          table |-> [k \in 1..32 |-> LET key == [x \in 1..5 |-> ((k - 1) \div Pow(2, 5 - x)) % 2] IN <<key, tf[key]>>], hist |-> hist']))
=============================================================================
