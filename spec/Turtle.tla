------------------------------- MODULE Turtle -------------------------------
(* The drawing turtle. Headings are in half degrees, clockwise from north; coordinates in units of 1/Unit;
   distances in quarters. A turtle is [x, y, o, stack, segs]. *)
EXTENDS SeqUtil
Unit == 100000
\* sine of 0, 0.5, ..., 90 degrees, times Unit
Quadrant == <<0, 873, 1745, 2618, 3490, 4362, 5234, 6105, 6976, 7846, 8716, 9585, 10453, 11320, 12187,
  13053, 13917, 14781, 15643, 16505, 17365, 18224, 19081, 19937, 20791, 21644, 22495, 23345, 24192, 25038,
  25882, 26724, 27564, 28402, 29237, 30071, 30902, 31730, 32557, 33381, 34202, 35021, 35837, 36650, 37461,
  38268, 39073, 39875, 40674, 41469, 42262, 43051, 43837, 44620, 45399, 46175, 46947, 47716, 48481, 49242,
  50000, 50754, 51504, 52250, 52992, 53730, 54464, 55194, 55919, 56641, 57358, 58070, 58779, 59482, 60182,
  60876, 61566, 62251, 62932, 63608, 64279, 64945, 65606, 66262, 66913, 67559, 68200, 68835, 69466, 70091,
  70711, 71325, 71934, 72537, 73135, 73728, 74314, 74896, 75471, 76041, 76604, 77162, 77715, 78261, 78801,
  79335, 79864, 80386, 80902, 81412, 81915, 82413, 82904, 83389, 83867, 84339, 84805, 85264, 85717, 86163,
  86603, 87036, 87462, 87882, 88295, 88701, 89101, 89493, 89879, 90259, 90631, 90996, 91355, 91706, 92050,
  92388, 92718, 93042, 93358, 93667, 93969, 94264, 94552, 94832, 95106, 95372, 95630, 95882, 96126, 96363,
  96593, 96815, 97030, 97237, 97437, 97630, 97815, 97992, 98163, 98325, 98481, 98629, 98769, 98902, 99027,
  99144, 99255, 99357, 99452, 99540, 99619, 99692, 99756, 99813, 99863, 99905, 99939, 99966, 99985, 99996,
  100000>>
Norm(o) == ((o % 720) + 720) % 720
SinQ(o) == Quadrant[o + 1]
Sin(o) == LET a == Norm(o) IN
          CASE a <= 180 -> SinQ(a) [] a > 180 /\ a <= 360 -> SinQ(360 - a)
            [] a > 360 /\ a <= 540 -> -SinQ(a - 360) [] OTHER -> -SinQ(720 - a)
Cos(o) == Sin(o + 180)
\* the table lies on the unit circle and turns by half a degree at a time, up to its rounding
ASSUME \A a \in 0..180 : Abs((SinQ(a) \div 10) * (SinQ(a) \div 10) + (SinQ(180 - a) \div 10) * (SinQ(180 - a) \div 10) - 100000000) <= 60000
ASSUME \A a \in 0..179 : Quadrant[a + 2] > Quadrant[a + 1]
ASSUME \A a \in 0..178 : Quadrant[a + 3] - Quadrant[a + 2] <= Quadrant[a + 2] - Quadrant[a + 1] + 3

\* the displacement of a move by d quarters along heading o, in quarters of 1/Unit
Dx4(o, d) == Sin(o) * d
Dy4(o, d) == Cos(o) * d
(* Exact execution, for headings and distances where the displacement is a whole number of units. *)
Start(x, y, o) == [x |-> x, y |-> y, o |-> o, stack |-> <<>>, segs |-> <<>>]
Exec(t, c) ==
  CASE c.c = "fwd" -> LET x2 == t.x + (Dx4(t.o, c.v) \div 4) y2 == t.y + (Dy4(t.o, c.v) \div 4) IN
                      [t EXCEPT !.x = x2, !.y = y2, !.segs = Append(@, <<t.x, t.y, x2, y2>>)]
    [] c.c = "rot" -> [t EXCEPT !.o = @ + c.v]
    [] c.c = "push" -> [t EXCEPT !.stack = Append(@, <<t.x, t.y, t.o>>)]
    [] c.c = "pop" -> LET p == Last(t.stack) IN [t EXCEPT !.x = p[1], !.y = p[2], !.o = p[3], !.stack = SubSeq(@, 1, Len(@) - 1)]
Enabled(t, c) == c.c = "pop" => t.stack # <<>>
(* Rendering a string: the instructions of its symbols, in order. *)
Commands(bind, s) == Flat([k \in DOMAIN s |-> bind[s[k]]])
RECURSIVE Expand(_, _, _)
Expand(rules, s, n) == IF n = 0 THEN s ELSE Expand(rules, Flat([k \in DOMAIN s |-> rules[s[k]]]), n - 1)
=============================================================================
