------------------------------- MODULE Turing -------------------------------
(* A Turing machine on a circular tape.  A transition is <<state, symbol, next state, written symbol,
   direction>>, the direction being 0 (left), 1 (stay) or 2 (right); positions count from 0. *)
EXTENDS SeqUtil
Entries(table, q, s) == {k \in DOMAIN table : table[k][1] = q /\ table[k][2] = s}
Defined(table, c) == Entries(table, c.q, c.tape[c.pos + 1]) # {}
TMStep(table, c) ==
  LET e == table[CHOOSE k \in Entries(table, c.q, c.tape[c.pos + 1]) : TRUE]
      n == Len(c.tape)
  IN [tape |-> [c.tape EXCEPT ![c.pos + 1] = e[4]], q |-> e[3], pos |-> (c.pos + e[5] - 1 + n) % n]
\* does the run of k further steps meet a missing transition?
RECURSIVE Stuck(_, _, _)
Stuck(table, c, k) == k > 0 /\ (~Defined(table, c) \/ Stuck(table, TMStep(table, c), k - 1))
\* may the head-centric form go on from configuration number k (1 = the initial one)?
GoesOn(term, hasterm, limit, k, q) == ~(limit > 0 /\ k = limit) /\ ~(hasterm /\ k > 1 /\ q = term)
\* does the head-centric form, started on configuration number k, meet a missing transition before it stops?
RECURSIVE HeadStuck(_, _, _, _, _, _)
HeadStuck(table, term, hasterm, limit, k, c) ==
  GoesOn(term, hasterm, limit, k, c.q) /\ (~Defined(table, c) \/ HeadStuck(table, term, hasterm, limit, k + 1, TMStep(table, c)))
=============================================================================
