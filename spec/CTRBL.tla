------------------------------- MODULE CTRBL -------------------------------
(* Rules that map the centre, top, right, bottom and left states of every cell of a periodic rows x cols
   grid; cells are numbered row by row from 0. A table is a sequence of <<key, image>>. *)
EXTENDS SeqUtil
Cell(rows, cols, i, j) == ((i + rows) % rows) * cols + ((j + cols) % cols)
NbCells(rows, cols, c) == LET i == c \div cols j == c % cols IN
  <<c, Cell(rows, cols, i - 1, j), Cell(rows, cols, i, j + 1), Cell(rows, cols, i + 1, j), Cell(rows, cols, i, j - 1)>>
\* the surroundings turned by m quarter turns
Turned(k, m) == [x \in 1..5 |-> IF x = 1 THEN k[1] ELSE k[((x - 2 + m) % 4) + 2]]
Orbit(k) == {Turned(k, m) : m \in 0..3}
Closure(table, rot) == IF rot THEN UNION {{<<k, table[e][2]>> : k \in Orbit(table[e][1])} : e \in DOMAIN table} ELSE Range(table)
\* the table as a function; meaningful only when no two entries conflict
TableFn(table, rot) == LET S == Closure(table, rot) IN [k \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = k)[2]]
NoConflict(table, rot) == LET S == Closure(table, rot) IN Cardinality({p[1] : p \in S}) = Cardinality(S)
\* g is the sequence of the cells' states, cell c being at c + 1
KeyAt(rows, cols, g, c) == LET n == NbCells(rows, cols, c) IN <<g[n[1] + 1], g[n[2] + 1], g[n[3] + 1], g[n[4] + 1], g[n[5] + 1]>>
AllKnown(tf, rows, cols, g) == \A c \in 0..(rows * cols - 1) : KeyAt(rows, cols, g, c) \in DOMAIN tf
GridStep(tf, rows, cols, g) == [x \in 1..(rows * cols) |-> tf[KeyAt(rows, cols, g, x - 1)]]
\* pattern p (a sequence of rows) laid into an empty grid with its top left corner at <<i, j>>
Stamp(rows, cols, p, i, j) == [x \in 1..(rows * cols) |->
  LET r == (x - 1) \div cols - i + 1 s == ((x - 1) % cols) - j + 1 IN
  IF r \in DOMAIN p /\ s \in DOMAIN p[1] THEN p[r][s] ELSE 0]
=============================================================================
