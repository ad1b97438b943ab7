----------------------------- MODULE EngineTrace -----------------------------
(* Validates recorded runs of evolve(): each call of a user function, with its arguments and result, is an
   event; the returned trajectory is the last one.  Verdicts are total: a failing clause is reported and
   the state follows what was observed. *)
EXTENDS Engine, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, st, bad

T(n) == "i:" \o ToString(n)
R(s, b) == [st |-> s, bad |-> b]

\* handle, as memo hits, the nodes before node l ("next"), up to and including node l ("done") or all of them ("all")
RECURSIVE CatchUp(_, _, _, _)
CatchUp(c, s, upto, l) ==
  IF ~NodesLeft(c, s) \/ (upto = "next" /\ NextNode(c, s) = l) \/ (upto = "done" /\ l \in DOMAIN s.cur) THEN R(s, {})
  ELSE IF CanHit(c, s) THEN CatchUp(c, Hit(c, s), upto, l)
  ELSE LET r == CatchUp(c, [s EXCEPT !.k = @ + 1], upto, l) IN R(r.st, r.bad \cup {"C06.node_skipped"})

\* all nodes handled, all perturbations made
Finish(c, s) ==
  IF s.actsDone THEN R(s, {})
  ELSE LET r == CatchUp(c, s, "all", "")
           surviving == DOMAIN r.st.cur \ Range(r.st.deaths)
       IN R(FinishActs(c, r.st), r.bad \cup Cl("C10.not_perturbed", c.pert => surviving \subseteq r.st.perts))

Close(c, s) ==
  IF ~s.open THEN R(s, {})
  ELSE LET r == Finish(c, s) IN
       R(Commit(c, r.st), r.bad \cup Cl("C07.topology_not_applied", c.topo => r.st.topoDone))

\* make timestep with token tt the open one (timesteps in which no user function is called may pass silently)
RECURSIVE EnsureOpen(_, _, _)
EnsureOpen(c, s, tt) ==
  IF s.open /\ tt = T(s.t) THEN R(s, {})
  ELSE IF c.input.kind # "fn" /\ tt = T(s.t + 1)
  THEN LET r == Close(c, s) IN
       R(Open(c, r.st, InputAt(c, r.st.t + 1)), r.bad \cup Cl("C08.ran_too_long", r.st.t + 1 < RunLength(c)))
  ELSE IF c.input.kind # "fn" /\ \E k \in (s.t + 2)..(RunLength(c) - 1) : tt = T(k)
  THEN LET r == Close(c, s)
           q == EnsureOpen(c, Open(c, r.st, InputAt(c, r.st.t + 1)), tt)
       IN R(q.st, r.bad \cup q.bad)
  ELSE R(s, {"C06.timestep", "C08.timestep"})

\* accessor methods of the context must agree with its fields
AccessorClauses(s, e, x) ==
  Cl("C06.activity_of", \A k \in DOMAIN e.accact : e.accact[k][2] = (IF e.accact[k][1] \in DOMAIN s.S THEN s.S[e.accact[k][1]] ELSE "?")) \cup
  Cl("C09.past_activity_of", \A k \in DOMAIN e.accpast : LET i == e.accpast[k][2] l == e.accpast[k][1] w == Len(x.past) IN
       (i <= w /\ l \in DOMAIN x.past[w + 1 - i]) => e.accpast[k][3] = x.past[w + 1 - i][l]) \cup
  Cl("C06.edge_data", \A k \in DOMAIN e.accedge : LET q == e.accedge[k] IN
       \E m \in DOMAIN x.conn : x.conn[m][1] = q[1] /\ q[2] \in DOMAIN x.conn[m][2] /\ q[3] \in DOMAIN x.conn[m][2][q[2]]
                                /\ x.conn[m][2][q[2]][q[3]] = q[4])

JudgeRule(c, s0, e) ==
  LET o == EnsureOpen(c, s0, e.t)
      s1 == o.st
      ready == s1.open /\ c.rule /\ (c.order = "TF" /\ c.topo => s1.topoDone)
  IN IF ~ready THEN R(s1, o.bad \cup {"C07.rule_before_topology"})
     ELSE IF s1.actsDone THEN R(s1, o.bad \cup {"C07.rule_after_topology"})
     ELSE
     LET left == {RuleNet(c, s1).nodes[m] : m \in (s1.k + 1)..Len(RuleNet(c, s1).nodes)} IN
     IF e.node \notin left THEN R(s1, o.bad \cup {"C06.unexpected_node"})
     ELSE
     LET u == CatchUp(c, s1, "next", e.node)
         s2 == u.st
         known == e.node \in DOMAIN s2.S /\ (\A m \in DOMAIN Neighbours(RuleNet(c, s2), e.node) : Neighbours(RuleNet(c, s2), e.node)[m] \in DOMAIN s2.S)
     IN IF ~known THEN R([s2 EXCEPT !.k = @ + 1], o.bad \cup u.bad \cup {"C06.unknown_neighbour"})
        ELSE
        LET x == Context(c, s2, e.node)
            cl == Cl("C06.activities", e.acts = x.acts) \cup
                  Cl("C06.neighbour_labels", e.nl = x.nl) \cup
                  Cl("C06.neighbourhood_activities", e.na = x.na) \cup
                  Cl("C06.connection_states", e.conn = x.conn) \cup
                  Cl("C06.current_activity", e.cur = x.cur) \cup
                  Cl("C08.node_input", e.inp = x.inp) \cup
                  Cl("C09.past", IF c.past = <<>> THEN e.haspast = FALSE ELSE e.haspast /\ e.past = x.past) \cup
                  Cl("C11.invoked_again", c.memo = "none" \/ ~Cached(s2, Key(c, s2, e.node))) \cup
                  AccessorClauses(s2, e, x)
        IN R(Invoke(c, s2, e.ret, e.add, e.rem), o.bad \cup u.bad \cup cl)

JudgePert(c, s0, e) ==
  LET o == EnsureOpen(c, s0, e.t)
      u == IF e.node \in DOMAIN o.st.cur \/ o.st.actsDone THEN R(o.st, {})
           ELSE CatchUp(c, o.st, "done", e.node)
      s1 == u.st
  IN IF ~o.st.open \/ ~CanPerturb(c, s1, e.node) \/ s1.actsDone
     THEN R(o.st, o.bad \cup {"C10.unexpected_call"})
     ELSE R(Perturb(s1, e.node, e.ret),
            o.bad \cup u.bad \cup Cl("C10.node_activity", e.act = s1.cur[e.node]) \cup Cl("C10.input", e.inp = NodeInput(s1, e.node)))

JudgeTopo(c, s0, e) ==
  LET o == EnsureOpen(c, s0, e.t)
      f == IF c.order = "AF" /\ o.st.open THEN Finish(c, o.st) ELSE R(o.st, {})
      s1 == f.st
  IN IF ~s1.open THEN R(s1, o.bad \cup {"C07.topology_timestep"})
     ELSE R(ApplyTopo(s1, NetOf(e.ret)),
            o.bad \cup f.bad \cup Cl("C07.topology_applied_twice", ~s1.topoDone) \cup
            Cl("C07.topology_timestep", e.t = T(IF s0.open /\ ~s0.topoDone THEN s0.t ELSE s0.t + 1)) \cup
            Cl("C07.topology_activities", e.acts = TopoActs(c, s1)) \cup
            Cl("C07.topology_network", SameNet(TopoNet(c, s1), e.net)))

JudgeInput(c, s0, e) ==
  LET r == Close(c, s0)
      s1 == r.st
      cl == Cl("C08.input_after_end", ~s1.ended) \cup Cl("C08.input_kind", c.input.kind = "fn") \cup
            Cl("C08.input_timestep", e.t = T(s1.t + 1)) \cup
            Cl("C08.input_activities", e.acts = s1.S) \cup Cl("C08.input_network", SameNet(s1.A, e.net))
  IN IF e.ret[1] = "none" THEN R([s1 EXCEPT !.ended = TRUE], r.bad \cup cl)
     ELSE R(Open(c, s1, e.ret), r.bad \cup cl)

\* timesteps in which no user function was called
RECURSIVE RunOut(_, _)
RunOut(c, s) ==
  IF c.input.kind = "fn" \/ s.t + 1 >= RunLength(c) THEN R(s, {})
  ELSE LET r == Close(c, Open(c, s, InputAt(c, s.t + 1)))
           q == RunOut(c, r.st)
       IN R(q.st, r.bad \cup q.bad)

JudgeEnd(c, s0, e) ==
  IF c.input.kind = "neither" \/ c.refuse \in {"few", "order"} THEN R(s0, Cl("C08.refused", e.out = "exc"))
  ELSE IF c.refuse = "nonet" THEN R(s0, Cl("C07.refused", e.out = "exc"))
  ELSE IF e.out # "ok" THEN R(s0, {"C06.failed", "C07.failed", "C08.failed", "C09.failed", "C10.failed", "C11.failed", "C13.failed"})
  ELSE
  LET r == Close(c, s0)
      q == RunOut(c, r.st)
      h == q.st.hist
      n == IF Len(h) < Len(e.traj) THEN Len(h) ELSE Len(e.traj)
      lost == Len(e.traj) # Len(h)
  IN R(q.st, r.bad \cup q.bad \cup
       Cl("C08.length", ~lost) \cup Cl("C08.list", e.islist) \cup
       Cl("C08.not_ended", c.input.kind = "fn" => q.st.ended) \cup
       Cl("REC.activities", \A k \in 1..n : e.traj[k].hasA => e.traj[k].a = h[k].a) \cup
       Cl("REC.network", \A k \in 1..n : e.traj[k].hasN => SameNet(h[k].n, e.traj[k].n)) \cup
       Cl("REC.present", \A k \in 1..n : e.traj[k].hasA /\ e.traj[k].hasN) \cup
       Cl("C13.activities", (\A k \in 1..n : e.traj[k].hasA => DOMAIN e.traj[k].a = DOMAIN h[k].a)) \cup
       Cl("C11.differs_from_unmemoized", e.ref = <<>> \/ (Len(e.ref) = Len(e.traj) /\ \A k \in DOMAIN e.ref : e.traj[k].hasA => e.ref[k] = e.traj[k].a)) \cup
       Cl("C11.invocations", e.ref = <<>> \/ e.invocations = Len(q.st.memo)))

Judge(c, s, e) ==
  CASE c.refuse \in {"few", "order"} /\ e.e # "end" -> R(s, {})
    [] e.e = "rule" -> JudgeRule(c, s, e)
    [] e.e = "pert" -> JudgePert(c, s, e)
    [] e.e = "topo" -> JudgeTopo(c, s, e)
    [] e.e = "input" -> JudgeInput(c, s, e)
    [] e.e = "end" -> JudgeEnd(c, s, e)

TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ st = InitState(Traces[tr]) /\ bad = {}
TraceNext == /\ pos < Len(Traces[tr].ev)
             /\ pos' = pos + 1
             /\ tr' = tr
             /\ LET j == Judge(Traces[tr], st, Traces[tr].ev[pos + 1]) IN st' = j.st /\ bad' = j.bad
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
