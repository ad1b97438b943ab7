----------------------------- MODULE FlagsTrace -----------------------------
(* Runs of one and the same system under different persistence, compression and copying flags.
   A trace is a list of recorded runs, the first one with the default flags: every run must make the calls
   of the first one, and record what Persisted says of the states of the first one. *)
EXTENDS SeqUtil, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, base, bad

\* what is kept of a history of complete states
Persisted(f, hist) ==
  [k \in DOMAIN hist |-> [hasA |-> k = 1 \/ f.activities, a |-> IF k = 1 \/ f.activities THEN hist[k].a ELSE EmptyFn,
                          hasN |-> k = 1 \/ f.network, n |-> IF k = 1 \/ f.network THEN hist[k].n ELSE "none"]]

\* what the calls of a run saw of the states: timestep token -> activities / network at that time
SnapshotsHold(v) ==
  Cl("C12.activities_altered",
     \A k \in DOMAIN v.calls : LET e == v.calls[k] IN
       e.e = "rule" => LET s == v.traj[e.tn] IN s.hasA => s.a = e.acts) \cup
  Cl("C12.network_altered",
     \A k \in DOMAIN v.calls : LET e == v.calls[k] IN
       e.e = "topo" => LET s == v.traj[e.tn + 1] IN s.hasN => s.n = e.ret)

Judge(v, b) ==
  IF v.out # "ok" THEN {"C12.failed"}
  ELSE
  LET p == Persisted(v.flags, b.traj) IN
  Cl("C12.same_calls", v.calls = b.calls) \cup
  Cl("C12.length", Len(v.traj) = Len(b.traj)) \cup
  (IF Len(v.traj) # Len(b.traj) THEN {}
   ELSE Cl("C12.activities_presence", \A k \in DOMAIN p : v.traj[k].hasA = p[k].hasA) \cup
        Cl("C12.network_presence", \A k \in DOMAIN p : v.traj[k].hasN = p[k].hasN) \cup
        Cl("C12.activities", \A k \in DOMAIN p : v.traj[k].hasA /\ p[k].hasA => v.traj[k].a = p[k].a) \cup
        Cl("C12.network", \A k \in DOMAIN p : v.traj[k].hasN /\ p[k].hasN => v.traj[k].n = p[k].n) \cup
        SnapshotsHold(v)) \cup
  Cl("C12.initial_conditions_modified", v.init0 = v.init1) \cup
  Cl("C12.past_conditions_modified", v.past0 = v.past1) \cup
  Cl("C12.initial_network_modified", v.net0 = v.net1)

TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ base = Traces[tr].ev[1] /\ bad = {}
TraceNext == /\ pos < Len(Traces[tr].ev)
             /\ pos' = pos + 1
             /\ UNCHANGED <<tr, base>>
             /\ bad' = Judge(Traces[tr].ev[pos + 1], base)
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
