------------------------------ MODULE RecordMC ------------------------------
(* How a run is recorded, with the networks as objects in a heap: a topology rule may edit the object it
   is given, return it untouched, or return another one; the engine may hand it a copy, and a state may keep
   the object, a compressed form of it (a value) or nothing.  Ghost variables remember what each network
   contained when it was recorded.  A network is abstracted to the sequence of edits made on it. *)
EXTENDS SeqUtil, Json
CONSTANTS Steps, Moves, Copies, Orders
VARIABLES fl, heap, cur, rec, ghost, seen, log, S, recA, t, order
vars == <<fl, heap, cur, rec, ghost, seen, log, S, recA, t, order>>

Flags == [copy : Copies, comp : BOOLEAN, actsKept : BOOLEAN, netKept : BOOLEAN]
Init == /\ fl \in Flags /\ order \in Orders
        /\ heap = <<<<0>>>> /\ cur = 1 /\ S = 0 /\ t = 0
        \* the initial state is always kept; it keeps the caller's own network
        /\ rec = <<IF fl.comp THEN [ref |-> 0, val |-> <<0>>] ELSE [ref |-> 1, val |-> <<>>]>>
        /\ recA = <<0>>
        /\ ghost = <<[n |-> <<0>>, a |-> 0]>> /\ seen = <<>> /\ log = <<>>

Alloc(h, v) == Append(h, v)
Deref(h, r) == IF r.ref = 0 THEN r.val ELSE h[r.ref]
Keep(h, id) == IF ~fl.netKept THEN [ref |-> 0, val |-> <<-1>>]
               ELSE IF fl.comp THEN [ref |-> 0, val |-> h[id]] ELSE [ref |-> id, val |-> <<>>]
\* the activity rule adds the number of edits of the network it runs on
Step(m) ==
  LET h1 == IF fl.copy THEN Alloc(heap, heap[cur]) ELSE heap
      arg == IF fl.copy THEN Len(h1) ELSE cur
      h2 == CASE m = "same" -> h1
              [] m = "edit" -> [h1 EXCEPT ![arg] = Append(@, t + 1)]
              [] m = "fresh" -> Alloc(h1, Append(h1[arg], 100 + t))
              \* edits the argument and then returns another network
              [] m = "edit_fresh" -> Alloc([h1 EXCEPT ![arg] = Append(@, t + 1)], <<0, 200 + t>>)
      new == IF m \in {"fresh", "edit_fresh"} THEN Len(h2) ELSE arg
      usedFor == IF order = "TF" THEN h2[new] ELSE heap[cur]
      S2 == S + Len(usedFor)
  IN /\ heap' = h2 /\ cur' = new /\ t' = t + 1 /\ S' = S2
     /\ seen' = Append(seen, heap[cur])
     /\ rec' = Append(rec, Keep(h2, new))
     /\ recA' = Append(recA, IF fl.actsKept THEN S2 ELSE -1)
     /\ ghost' = Append(ghost, [n |-> h2[new], a |-> S2])
     /\ log' = Append(log, m)
     /\ UNCHANGED <<fl, order>>
Next == t < Steps /\ \E m \in Moves : Step(m)
Spec == Init /\ [][Next]_vars

Harmless == fl.copy \/ \A k \in DOMAIN log : log[k] \in {"same", "fresh"}
\* with copying on, or rules that leave their argument alone, what is recorded stays what it was
NetworksFrozen == Harmless => \A k \in DOMAIN rec : Deref(heap, rec[k]) = (IF k = 1 \/ fl.netKept THEN ghost[k].n ELSE <<-1>>)
ActivitiesFrozen == \A k \in DOMAIN recA : recA[k] = (IF k = 1 \/ fl.actsKept THEN ghost[k].a ELSE -1)
\* the caller's network is not touched
CallersNetwork == Harmless => heap[1] = <<0>>
\* compressed records are values: they never change
Compressed == fl.comp => \A k \in DOMAIN rec : Deref(heap, rec[k]) = (IF k = 1 \/ fl.netKept THEN ghost[k].n ELSE <<-1>>)
\* the flags do not change what happens: the ghosts are those of the flagless run of the same moves
RECURSIVE Ideal(_, _)
Ideal(k, g) == IF k > Len(log) THEN <<g>>
               ELSE LET n2 == CASE log[k] = "same" -> g.n [] log[k] = "edit" -> Append(g.n, k) [] log[k] = "fresh" -> Append(g.n, 100 + k - 1)
                                [] log[k] = "edit_fresh" -> <<0, 200 + k - 1>>
                    IN <<g>> \o Ideal(k + 1, [n |-> n2, a |-> g.a + Len(IF order = "TF" THEN n2 ELSE g.n)])
Dynamics == Harmless => ghost = Ideal(1, [n |-> <<0>>, a |-> 0])
Emit == Len(log') < Steps \/ ~(fl.copy \/ \A k \in DOMAIN log' : log'[k] \in {"same", "fresh"}) \/
        PrintT("@@" \o ToJson([fl |-> fl, order |-> order, moves |-> log', seen |-> seen', acts |-> recA',
                               nets |-> [k \in DOMAIN rec' |-> IF k = 1 \/ fl.netKept THEN ghost'[k].n ELSE <<-1>>]]))
=============================================================================
