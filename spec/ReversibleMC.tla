---------------------------- MODULE ReversibleMC ----------------------------
(* Every elementary rule on a small ring, forward for Steps timesteps, then again from the last two
   states in swapped roles. *)
EXTENDS Reversible, Json
CONSTANTS N, Steps, Rules
VARIABLES rule, hist, back
vars == <<rule, hist, back>>
Cells == 1..N
F(st) == [c \in Cells |-> (rule \div Pow(2, 4 * st[((c - 2) % N) + 1] + 2 * st[c] + st[(c % N) + 1])) % 2]
Nxt(p, c) == RevStep(F(c), p)
Init == /\ rule \in Rules
        /\ \E p, c \in [Cells -> {0, 1}] : hist = <<p, c>>
        /\ back = <<>>
Forward == Len(hist) < Steps + 2 /\ hist' = Append(hist, Nxt(hist[Len(hist) - 1], Last(hist))) /\ UNCHANGED <<rule, back>>
Turn == Len(hist) = Steps + 2 /\ back = <<>> /\ back' = <<Last(hist), hist[Len(hist) - 1]>> /\ UNCHANGED <<rule, hist>>
Backward == back # <<>> /\ Len(back) < Len(hist) /\ back' = Append(back, Nxt(back[Len(back) - 1], Last(back))) /\ UNCHANGED <<rule, hist>>
Next == Forward \/ Turn \/ Backward
Spec == Init /\ [][Next]_vars
Retraces == \A k \in DOMAIN back : back[k] = hist[Len(hist) + 1 - k]
\* reversibility of one step, the inductive reason for it
Invertible == \A k \in 1..(Len(hist) - 2) : Nxt(hist[k + 2], hist[k + 1]) = hist[k]
Emit == ~(Len(back') = Len(hist') /\ Len(back) # Len(hist)) \/ PrintT("@@" \o ToJson([rule |-> rule, hist |-> hist']))
=============================================================================
