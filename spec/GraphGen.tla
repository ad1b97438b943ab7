------------------------------ MODULE GraphGen ------------------------------
(* Judges recorded calls of the conversions and graph generators.  A trace is a list of calls (one per event) with what they returned. *)
EXTENDS GraphDefs, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, bad

-----------------------------------------------------------------------------
(* C03: conversions *)
JudgeC03(e) ==
  CASE e.c = "from_matrix" ->
         Cl("C03.from_matrix.nodes", e.out = "ok" /\ SameNodes(e.net, Labels(Len(e.m)))) \cup
         Cl("C03.from_matrix.edges", e.out = "ok" /\ EdgeBag(e.net) = FromMatrix(e.m, e.nz))
    [] e.c = "to_matrix" -> Cl("C03.to_matrix", e.out = "ok" /\ e.got = Matrix(e))
    [] e.c = "matrix_roundtrip" -> Cl("C03.matrix_roundtrip", e.out = "ok" /\ e.got = e.m)
    [] e.c = "networkx" ->
         (IF e.out # "ok" THEN {"C03.networkx.failed"}
          ELSE Cl("C03.to_networkx.nodes", Bag(e.gn) = Once({<<l, e.net.na[l]>> : l \in Range(e.net.nodes)})) \cup
               Cl("C03.to_networkx.edges", Bag(e.ge) = EdgeBag(e.net)) \cup
               Cl("C03.from_networkx.nodes", SameNodes(e.back, Range(e.net.nodes)) /\ e.back.na = e.net.na) \cup
               Cl("C03.from_networkx.edges", EdgeBag(e.back) = EdgeBag(e.net)))
    [] e.c = "from_networkx" ->
         Cl("C03.from_networkx.nodes", e.out = "ok" /\ Range(e.back.nodes) = {e.gn[k][1] : k \in DOMAIN e.gn}
                                       /\ \A k \in DOMAIN e.gn : e.back.na[e.gn[k][1]] = e.gn[k][2]) \cup
         Cl("C03.from_networkx.edges", e.out = "ok" /\ EdgeBag(e.back) = Bag(e.ge))

-----------------------------------------------------------------------------
(* C04: cellular-automaton topologies *)
\* the incoming edges come from exactly the cells given
InFrom(p, l, S) == Range(Sources(p, l)) = TSet(S) /\ \A k \in DOMAIN p.inc[l] : Len(p.inc[l][k][2]) = 1
RotOf(p, l) == p.rot[CHOOSE k \in DOMAIN p.rot : p.rot[k][1] = l][2]
RotHas(p, n) == {p.rot[k][1] : k \in DOMAIN p.rot} = Labels(n)

JudgeC04(e) ==
  IF e.out # "ok" THEN {"C04.failed"}
  ELSE IF e.c = "refuse" THEN Cl("C04.refused", TRUE \notin Range(e.made))
  ELSE
  LET n == IF e.c = "ca1" THEN e.n ELSE e.rows * e.cols
      cells == [i \in 0..(n - 1) |-> IF e.c = "ca1" THEN Range(Ring(e.n, e.r, i)) ELSE Cells2d(e.rows, e.cols, e.type, e.r, i)]
  IN Cl("C04.nodes", SameNodes(e.net, Labels(n))) \cup
     (IF ~SameNodes(e.net, Labels(n)) THEN {}
      ELSE Cl("C04.neighbourhood", \A i \in 0..(n - 1) : InFrom(e.net, T(i), cells[i])) \cup
     (IF ~e.ordered THEN Cl("C04.unordered", e.net.rot = <<>>)
      ELSE IF ~RotHas(e.net, n) THEN {"C04.rotation"}
      ELSE Cl("C04.rotation",
              \A i \in 0..(n - 1) :
                LET ro == RotOf(e.net, T(i)) IN
                IF e.c = "ca1" THEN ro = [k \in DOMAIN Ring(e.n, e.r, i) |-> T(Ring(e.n, e.r, i)[k])]
                ELSE /\ Len(ro) = Cardinality(cells[i]) /\ Range(ro) = TSet(cells[i])
                     /\ ro[Len(ro) \div 2 + 1] = T(i)))) \cup
     Cl("C04.matrix", \A i \in 0..(n - 1) : {j \in 0..(n - 1) : e.adj[i + 1][j + 1] = 1} = cells[i]
                      /\ \A j \in 0..(n - 1) : e.adj[i + 1][j + 1] \in {0, 1})

-----------------------------------------------------------------------------
(* C05: generators *)
JudgeC05(e) ==
  IF e.out # "ok" THEN {"C05." \o e.c \o ".failed"}
  ELSE
  CASE e.c = "lattice" ->
         Cl("C05.lattice.nodes", SameNodes(e.net, {T(x + e.first) : x \in 0..(Size(e.dim) - 1)})) \cup
         Cl("C05.lattice.edges", Pairs(e.net) = Once(LatticePairs(e)))
    [] e.c = "complete" ->
         Cl("C05.complete.nodes", SameNodes(e.net, Labels(e.n))) \cup
         Cl("C05.complete.edges", Pairs(e.net) = Once({q \in Labels(e.n) \X Labels(e.n) : q[1] # q[2]}))
    [] e.c = "disconnected" ->
         Cl("C05.disconnected.nodes", e.net.nodes = e.labels) \cup Cl("C05.disconnected.edges", Edges(e.net) = <<>>)
    [] e.c = "bipartite" ->
         Cl("C05.bipartite.nodes", SameNodes(e.net, Range(e.s1) \cup Range(e.s2))) \cup
         Cl("C05.bipartite.edges", EdgeBag(e.net) =
              Once({<<e.s1[q[1]], e.s2[q[2]], e.attrs[q[1]][q[2]]>> : q \in (DOMAIN e.s1) \X (DOMAIN e.s2)} \cup
                   {<<e.s2[q[2]], e.s1[q[1]], e.attrs[q[1]][q[2]]>> : q \in (DOMAIN e.s1) \X (DOMAIN e.s2)}))
    [] e.c = "small_world" ->
         LET pr == Pairs(e.net) IN
         Cl("C05.small_world.nodes", SameNodes(e.net, Labels(e.n))) \cup
         Cl("C05.small_world.simple", \A q \in DOMAIN pr : pr[q] = 1 /\ q[1] # q[2]) \cup
         Cl("C05.small_world.symmetric", \A q \in DOMAIN pr : <<q[2], q[1]>> \in DOMAIN pr) \cup
         Cl("C05.small_world.links", Cardinality(DOMAIN pr) = e.n * e.k) \cup
         Cl("C05.small_world.ring", e.p0 => DOMAIN pr = RingLattice(e.n, e.k)) \cup
         Cl("C05.small_world.seed", e.again.nodes = e.net.nodes /\ e.again.inc = e.net.inc)

Judge(e) == CASE e.prop = "C03" -> JudgeC03(e) [] e.prop = "C04" -> JudgeC04(e) [] e.prop = "C05" -> JudgeC05(e)

TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ bad = {}
TraceNext == /\ pos < Len(Traces[tr].ev)
             /\ pos' = pos + 1
             /\ tr' = tr
             /\ bad' = Judge(Traces[tr].ev[pos + 1])
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
