------------------------------ MODULE EngineMC ------------------------------
(* The engine with a nondeterministic environment: the user's functions may return anything from small
   sets.  Checked exhaustively; every complete behaviour can be emitted and replayed on the real code. *)
EXTENDS Engine, Json
CONSTANTS Cs,        \* the configurations of this run
          Vals,      \* activities
          PertVals,  \* what a perturbation may return ("=" stands for the value it was given)
          TopoMoves, \* "id", "add", "cut", "drop"
          Items,     \* inputs an input function may give, besides the end
          Life       \* "none", "self", "other", "birth", "rebirth", "both", "twins", "link": what a rule may request
VARIABLES c, st, log, done
vars == <<c, st, log, done>>

Init == c \in Cs /\ st = InitState(c) /\ log = <<>> /\ done = FALSE

CanBegin == ~st.open /\ ~done
Begin == /\ CanBegin
         /\ \/ /\ c.input.kind # "fn" /\ st.t + 1 < RunLength(c)
               /\ st' = Open(c, st, InputAt(c, st.t + 1)) /\ UNCHANGED <<log, done>>
            \/ /\ c.input.kind # "fn" /\ ~(st.t + 1 < RunLength(c))
               /\ done' = TRUE /\ UNCHANGED <<st, log>>
            \/ /\ c.input.kind = "fn" /\ st.t < c.input.max
               /\ \E i \in Items : st' = Open(c, st, i) /\ log' = Append(log, [e |-> "input", t |-> st.t + 1, ret |-> i])
               /\ UNCHANGED done
            \/ /\ c.input.kind = "fn"
               /\ log' = Append(log, [e |-> "input", t |-> st.t + 1, ret |-> <<"none">>])
               /\ done' = TRUE /\ st' = [st EXCEPT !.ended = TRUE]
         /\ UNCHANGED c

Unperturbed == {l \in DOMAIN st.cur : CanPerturb(c, st, l)}
Updating == st.open /\ ~st.actsDone /\ NodesLeft(c, st) /\ Unperturbed = {} /\ (c.order # "AF" /\ c.topo => st.topoDone)

\* new labels are never reused; births are linked to surviving nodes or to themselves
NewLabel == "i:" \o ToString(100 + 10 * st.t + Len(st.births))
SecondLabel == "i:" \o ToString(101 + 10 * st.t + Len(st.births))
Others(l) == Range(st.A.nodes) \ {l}
Gone == Range(st.deaths)
BirthOf(lab, ts) == <<CHOOSE v \in Vals : TRUE, [k \in DOMAIN ts |-> <<ts[k], [w |-> "i:1"]>>], lab>>
Requests(l) ==
  (IF "none" \in Life THEN {<<<<>>, <<>>>>} ELSE {}) \cup
  (IF "self" \in Life THEN {<<<<>>, <<l>>>>} ELSE {}) \cup
  (IF "other" \in Life THEN {<<<<>>, <<o>>>> : o \in Others(l)} ELSE {}) \cup
  (IF "birth" \in Life THEN {<<<<BirthOf(NewLabel, <<>>)>>, <<>>>>, <<<<BirthOf(NewLabel, <<NewLabel>>)>>, <<>>>>} ELSE {}) \cup
  \* a label removed and re-added
  (IF "rebirth" \in Life /\ l \notin Gone /\ l \notin {st.births[k][3] : k \in DOMAIN st.births}
   THEN {<<<<BirthOf(l, <<l>>)>>, <<l>>>>} ELSE {}) \cup
  (IF "both" \in Life THEN {<<<<BirthOf(NewLabel, <<NewLabel>>)>>, <<l>>>>} ELSE {}) \cup
  \* two births, each linked to the other
  (IF "twins" \in Life THEN {<<<<BirthOf(NewLabel, <<SecondLabel>>), BirthOf(SecondLabel, <<NewLabel>>)>>, <<>>>>} ELSE {}) \cup
  (IF "link" \in Life THEN {<<<<BirthOf(NewLabel, <<o, l>>)>>, <<>>>> : o \in Others(l)} ELSE {})

Update ==
  /\ Updating
  /\ IF CanHit(c, st) THEN st' = Hit(c, st) /\ UNCHANGED log
     ELSE \E v \in Vals : \E r \in Requests(NextNode(c, st)) :
            /\ st' = Invoke(c, st, v, r[1], r[2])
            /\ log' = Append(log, [e |-> "rule", t |-> st.t, node |-> NextNode(c, st), ret |-> v, add |-> r[1], rem |-> r[2], x |-> Context(c, st, NextNode(c, st))])
  /\ UNCHANGED <<c, done>>

Perturbing ==
  /\ st.open /\ ~st.actsDone
  /\ \E l \in Unperturbed : \E v \in PertVals :
       LET ret == IF v = "=" THEN st.cur[l] ELSE v IN
       /\ st' = Perturb(st, l, ret)
       /\ log' = Append(log, [e |-> "pert", t |-> st.t, node |-> l, act |-> st.cur[l], inp |-> NodeInput(st, l), ret |-> ret])
  /\ UNCHANGED <<c, done>>

AllUpdated == ~NodesLeft(c, st) /\ Unperturbed = {}

Moved(g, m) ==
  LET ns == g.nodes IN
  CASE m = "id" -> g
    [] m = "add" -> WithRot(AddEdge(g, ns[1], ns[Len(ns)], [w |-> "i:7"]), g.rot)
    [] m = "cut" -> [g EXCEPT !.inc = [l \in DOMAIN g.inc |-> <<>>], !.din = [l \in DOMAIN g.din |-> 0], !.dout = [l \in DOMAIN g.dout |-> 0]]
    [] m = "drop" -> WithRot(RemoveNode(g, ns[1]), g.rot)
Moves(g) == {m \in TopoMoves : (m = "drop" => Len(g.nodes) > 1 /\ g.rot = <<>>) /\ (m = "add" => g.nodes # <<>>)}

Topology ==
  /\ st.open /\ c.topo /\ ~st.topoDone
  /\ (c.order = "AF" => AllUpdated)
  \* under synchronous update the topology is applied first here (Updating), as in the implementation; the result does not depend on it
  /\ LET s == IF c.order = "AF" THEN FinishActs(c, st) ELSE st
         g == TopoNet(c, s)
     IN \E m \in Moves(g) :
          /\ st' = ApplyTopo(s, Moved(g, m))
          /\ log' = Append(log, [e |-> "topo", t |-> s.t, acts |-> TopoActs(c, s), ret |-> Moved(g, m)])
  /\ UNCHANGED <<c, done>>

Finishing == /\ st.open /\ AllUpdated /\ (c.topo => st.topoDone)
             /\ st' = Commit(c, st) /\ UNCHANGED <<c, log, done>>

Next == Begin \/ Update \/ Perturbing \/ Topology \/ Finishing
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties of the specified engine *)
TypeOK == /\ Len(st.hist) = IF st.open THEN st.t ELSE st.t + 1
          /\ st.S = st.hist[Len(st.hist)].a
          /\ st.A = st.hist[Len(st.hist)].n
          /\ st.hist[1].a = c.init /\ SameNet(st.hist[1].n, c.net)
Networks == \A k \in DOMAIN st.hist : WellFormed(st.hist[k].n)
\* C06/C13: without a topology rule the recorded activities are those of exactly the nodes of the recorded network
Domains == ~c.topo /\ c.rule => \A k \in DOMAIN st.hist : DOMAIN st.hist[k].a = Range(st.hist[k].n.nodes)
\* C07: under synchronous update and topology first every node of the network used has been updated
Covered == ~st.open /\ st.t > 0 /\ Life = {"none"} =>
             DOMAIN st.S = Range((IF c.order = "TF" THEN st.hist[st.t + 1].n ELSE st.hist[st.t].n).nodes)
\* C08
Length == done => (c.input.kind # "fn" => Len(st.hist) = RunLength(c)) /\ (c.input.kind = "fn" => st.ended)
Terminates == <>done
\* C09: the window is the history before the previous state, preceded by the past conditions
PastIsHistory ==
  st.open => LET whole == c.past \o [k \in 1..(Len(st.hist) - 1) |-> st.hist[k].a]
             IN PastWindow(c, st) = SubSeq(whole, Len(whole) - Len(c.past) + 1, Len(whole))
\* C10
PertCalls == \A a, b \in DOMAIN log : a # b /\ log[a].e = "pert" /\ log[b].e = "pert" => log[a].t # log[b].t \/ log[a].node # log[b].node
\* C11: the table is a function, and every value computed so far is the one the table gives for its key
MemoFunction == \A a, b \in DOMAIN st.memo : st.memo[a][1] = st.memo[b][1] => a = b
MemoSound == c.memo # "none" /\ ~c.pert /\ st.open /\ (c.order = "TF" /\ c.topo => st.topoDone) =>
               \A l \in DOMAIN st.cur : Cached(st, Key(c, st, l)) /\ st.cur[l] = CachedValue(st, Key(c, st, l))
\* C13: a removed label is absent unless it was re-added; a born one is there, with its state and links
LifeTakesEffect ==
  [][~st'.open /\ st.open /\ ~c.topo =>
       LET born == {st.births[k][3] : k \in DOMAIN st.births}
           k1 == Len(st'.hist)
           g == st'.hist[k1].n
       IN /\ \A l \in Gone \ born : l \notin DOMAIN st'.hist[k1].a /\ ~HasNode(g, l) /\ \A x \in Range(g.nodes) : ~HasEdge(g, l, x)
          /\ \A k \in DOMAIN st.births : LET b == st.births[k] IN
               /\ st'.hist[k1].a[b[3]] = b[1]
               /\ \A m \in DOMAIN b[2] : HasEdge(g, b[3], b[2][m][1])
          /\ \A l \in Range(st.A.nodes) \ (Gone \cup born) : HasNode(g, l) /\ g.na[l] = st.A.na[l]]_vars
\* recorded states never change
Frozen == [][\A k \in DOMAIN st.hist : st'.hist[k] = st.hist[k]]_vars

Proj(n) == [nodes |-> n.nodes, na |-> n.na, inc |-> n.inc, rot |-> n.rot]
Emit == ~(done' /\ ~done) \/
        PrintT("@@" \o ToJson([c |-> c, log |-> [k \in DOMAIN log' |-> IF log'[k].e = "topo" THEN [log'[k] EXCEPT !.ret = Proj(@)] ELSE log'[k]],
                               hist |-> [k \in DOMAIN st.hist |-> [a |-> st.hist[k].a, n |-> Proj(st.hist[k].n)]]]))
=============================================================================
