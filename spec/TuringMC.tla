------------------------------ MODULE TuringMC ------------------------------
(* All machines, the transitions being chosen when they are first needed (or found to be missing), on
   every tape of N cells. *)
EXTENDS Turing, Json
CONSTANTS States, Symbols, N, Steps, Terms
VARIABLES table, hist, status, term
vars == <<table, hist, status, term>>
Init == /\ table = <<>> /\ status = "run"
        /\ term \in Terms
        /\ \E t \in [1..N -> Symbols], p \in 0..(N - 1) : hist = <<[tape |-> t, q |-> 0, pos |-> p]>>
Cur == Last(hist)
Halted == term # 9 /\ Len(hist) > 1 /\ Cur.q = term
Choose == /\ status = "run" /\ ~Halted /\ Len(hist) < Steps /\ ~Defined(table, Cur)
          /\ \/ \E q \in States, s \in Symbols, d \in 0..2 :
                table' = Append(table, <<Cur.q, Cur.tape[Cur.pos + 1], q, s, d>>) /\ UNCHANGED status
             \/ status' = "missing" /\ UNCHANGED table
          /\ UNCHANGED <<hist, term>>
Step == status = "run" /\ ~Halted /\ Len(hist) < Steps /\ Defined(table, Cur) /\ hist' = Append(hist, TMStep(table, Cur)) /\ UNCHANGED <<table, status, term>>
Stop == status = "run" /\ (Halted \/ Len(hist) = Steps) /\ status' = "done" /\ UNCHANGED <<table, hist, term>>
Next == Choose \/ Step \/ Stop
Spec == Init /\ [][Next]_vars
Dist(a, b) == Min({(a - b + N) % N, (b - a + N) % N})
\* what a step may do, whatever the machine
OneCell == \A k \in 1..(Len(hist) - 1) : LET a == hist[k] b == hist[k + 1] IN
  (\A c \in 1..N : a.tape[c] # b.tape[c] => c = a.pos + 1) /\ Dist(a.pos, b.pos) <= 1 /\ b.pos \in 0..(N - 1)
Deterministic == \A i, j \in 1..(Len(hist) - 1) : hist[i] = hist[j] => hist[i + 1] = hist[j + 1]
StuckIff == status = "missing" => Stuck(table, hist[1], Steps) /\ HeadStuck(table, term, term # 9, Steps, 1, hist[1])
DoneIff == status = "done" => ~HeadStuck(table, term, term # 9, Steps, 1, hist[1])
Emit == ~(status' # "run" /\ status = "run") \/ PrintT("@@" \o ToJson([table |-> table, hist |-> hist, status |-> status', term |-> term, limit |-> Steps]))
=============================================================================
