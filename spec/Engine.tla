------------------------------- MODULE Engine -------------------------------
(* The evolution engine: a run alternates timesteps in which every node is updated from the previous
   state, perturbed, and the topology rule is applied, in one of three orders.

   c  : the configuration of a run
        order  "AF" | "TF" | "SY";  topo, rule, pert : whether such a function is given
        memo   "none" | "ordered" | "bag" | "cur_ordered" | "first" | "label_ordered"
        input  [kind |-> "timesteps", n] | [kind |-> "list", items] | [kind |-> "fn"]
        past   past conditions, oldest first;  init : S(0);  net : A(0) (with its rotation, rot)
   st : the state of a run
        t      current timestep; open: whether it is in progress
        A, S   network and activities of timestep t-1 (of timestep t when not open)
        cur    activities computed so far in the open timestep; k: nodes handled so far
        perts, births, deaths, selfdeaths : of the open timestep
        An, topoDone : the network returned by the topology rule in the open timestep
        actsDone : the activities of the open timestep are final
        memo   sequence of <<key, result>>
        hist   completed timesteps (from 0): [a |-> S(t), n |-> A(t)]
        inp    input of the open timestep: <<"none">>, <<"all", v>> or <<"per", label -> v>>
        ended  the input function has signalled the end
   The results of the user's functions are the environment's choice; everything else is determined. *)
EXTENDS Multigraph

\* a graph together with a rotation system (a sequence of <<label, neighbour sequence>>; empty if none)
NetOf(p) == [FromProjection(p) EXCEPT !.nodes = p.nodes] @@ [rot |-> p.rot]
WithRot(g, r) == [x \in DOMAIN g \ {"rot"} |-> g[x]] @@ [rot |-> r]
SameNet(n, p) == n.nodes = p.nodes /\ n.na = p.na /\ n.inc = p.inc

RotEntry(n, l) == LET k == CHOOSE k \in DOMAIN n.rot : n.rot[k][1] = l IN n.rot[k][2]
Neighbours(n, l) == IF n.rot # <<>> THEN RotEntry(n, l) ELSE Sources(n, l)

InitState(c) ==
  [t |-> 0, open |-> FALSE, A |-> NetOf(c.net), S |-> c.init, cur |-> EmptyFn, k |-> 0, perts |-> {},
   births |-> <<>>, deaths |-> <<>>, selfdeaths |-> {}, An |-> NetOf(c.net), topoDone |-> FALSE, actsDone |-> FALSE,
   memo |-> <<>>, hist |-> <<[a |-> c.init, n |-> NetOf(c.net)]>>, inp |-> <<"none">>, ended |-> FALSE]

\* the network the nodes are updated on in the open timestep
RuleNet(c, st) == IF c.order = "TF" /\ st.topoDone THEN st.An ELSE st.A

NodeInput(st, l) == CASE st.inp[1] = "none" -> "N"
                      [] st.inp[1] = "all" -> st.inp[2]
                      [] st.inp[1] = "per" -> IF l \in DOMAIN st.inp[2] THEN st.inp[2][l] ELSE "<no input>"

\* the window of past states seen at timestep t: oldest first, the last one is S(t-2)
PastWindow(c, st) ==
  LET w == Len(c.past) IN
  [i \in 1..w |-> LET tau == st.t - 2 - (w - i) IN IF tau >= 0 THEN st.hist[tau + 1].a ELSE c.past[w + tau + 1]]

\* what the node's rule is shown
Context(c, st, l) ==
  LET n == RuleNet(c, st)
      nl == Neighbours(n, l)
  IN [node |-> l, acts |-> st.S, nl |-> nl, na |-> [k \in DOMAIN nl |-> st.S[nl[k]]], conn |-> n.inc[l],
      cur |-> st.S[l], past |-> PastWindow(c, st), inp |-> NodeInput(st, l)]

Key(c, st, l) ==
  LET x == Context(c, st, l) IN
  CASE c.memo = "ordered" -> <<"k", x.na>>
    [] c.memo = "bag" -> <<"k", Bag(x.na)>>
    [] c.memo = "cur_ordered" -> <<"k", x.cur, x.na>>
    [] c.memo = "label_ordered" -> <<"k", x.node, x.na>>
    [] c.memo = "first" -> <<"k", IF x.na = <<>> THEN "s:" ELSE x.na[1]>>
Cached(st, key) == \E m \in DOMAIN st.memo : st.memo[m][1] = key
CachedValue(st, key) == st.memo[CHOOSE m \in DOMAIN st.memo : st.memo[m][1] = key][2]

-----------------------------------------------------------------------------
(* Actions, as functions of the state *)

Open(c, st, inp) ==
  [st EXCEPT !.t = @ + 1, !.open = TRUE, !.cur = EmptyFn, !.k = 0, !.perts = {}, !.births = <<>>, !.deaths = <<>>,
             !.selfdeaths = {}, !.topoDone = FALSE, !.actsDone = FALSE, !.inp = inp]

NextNode(c, st) == RuleNet(c, st).nodes[st.k + 1]
NodesLeft(c, st) == c.rule /\ st.k < Len(RuleNet(c, st).nodes)

\* the rule of the next node is invoked and returns ret, requesting births add and deaths rem
Invoke(c, st, ret, add, rem) ==
  LET l == NextNode(c, st)
      s1 == [st EXCEPT !.k = @ + 1, !.births = @ \o add, !.deaths = @ \o rem]
      s2 == IF l \in Range(rem) THEN [s1 EXCEPT !.selfdeaths = @ \cup {l}] ELSE [s1 EXCEPT !.cur = (l :> ret) @@ @]
  IN IF c.memo = "none" \/ Cached(st, Key(c, st, l)) THEN s2
     ELSE [s2 EXCEPT !.memo = Append(@, <<Key(c, st, l), ret>>)]

\* the next node's result is taken from the memo table
CanHit(c, st) == c.memo # "none" /\ NodesLeft(c, st) /\ Cached(st, Key(c, st, NextNode(c, st)))
Hit(c, st) == LET l == NextNode(c, st) IN [st EXCEPT !.k = @ + 1, !.cur = (l :> CachedValue(st, Key(c, st, l))) @@ @]

\* the perturbation intercepts the value computed for node l
CanPerturb(c, st, l) == c.pert /\ l \in DOMAIN st.cur /\ l \notin st.perts
Perturb(st, l, ret) == [st EXCEPT !.cur[l] = ret, !.perts = @ \cup {l}]

\* births and deaths (activities first)
RECURSIVE RemoveAll(_, _)
RemoveAll(g, ls) == IF ls = <<>> THEN g
                    ELSE RemoveAll(IF HasNode(g, Head(ls)) THEN RemoveNode(g, Head(ls)) ELSE g, Tail(ls))
BirthLinks(g, b) == FoldL(LAMBDA h, e : AddEdge(h, b[3], e[1], e[2]), g, b[2])
Born(g, bs) == FoldL(LAMBDA h, b : BirthLinks(AddNode(h, b[3], [activity |-> b[1]]), b), g, bs)
AfterLife(c, st) ==
  IF c.order = "AF" /\ (st.births # <<>> \/ st.deaths # <<>>)
  THEN WithRot(Born(RemoveAll(st.A, st.deaths), st.births), <<>>)
  ELSE st.A
FinalActs(c, st) ==
  IF c.order = "AF"
  THEN FoldL(LAMBDA a, b : (b[3] :> b[1]) @@ a, Without(st.cur, Range(st.deaths)), st.births)
  ELSE st.cur
FinishActs(c, st) == IF st.actsDone THEN st ELSE [st EXCEPT !.cur = FinalActs(c, st), !.actsDone = TRUE]

\* what the topology rule is shown
TopoActs(c, st) == IF c.order = "AF" THEN st.cur ELSE st.S
TopoNet(c, st) == IF c.order = "AF" THEN AfterLife(c, st) ELSE st.A
ApplyTopo(st, net) == [st EXCEPT !.An = net, !.topoDone = TRUE]

\* the end of the timestep
Commit(c, st) ==
  LET s == FinishActs(c, st)
      n == IF c.topo /\ s.topoDone THEN s.An ELSE AfterLife(c, s)
  IN [s EXCEPT !.open = FALSE, !.S = s.cur, !.A = n, !.hist = Append(@, [a |-> s.cur, n |-> n])]

\* the number of states of the trajectory, when it does not depend on an input function
RunLength(c) == IF c.input.kind = "timesteps" THEN (IF c.input.n < 1 THEN 1 ELSE c.input.n)
                ELSE Len(c.input.items) + 1
InputAt(c, t) == IF c.input.kind = "timesteps" THEN <<"none">>
                 ELSE IF t \in DOMAIN c.input.items THEN c.input.items[t] ELSE <<"none">>
=============================================================================
