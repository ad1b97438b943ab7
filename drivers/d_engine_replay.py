"""Replays complete behaviours of the engine specification: the user functions return what the behaviour says."""
from rec import *
from netomaton import Network, MemoizationKey, evolve
from d_engine import ORD, Key, traj_rec


def E(x):
    return {} if x == [] else x


def attrs(a):
    return {k: untok(v) for k, v in E(a).items()}


def mknet(p):
    n = Network()
    for l in p["nodes"]:
        n.add_node(untok(l), **attrs(E(p["na"])[l]))
    for l in p["nodes"]:
        for s, es in E(p["inc"])[l]:
            for a in es:
                n.add_edge(untok(s), untok(l), **attrs(a))
    if p["rot"]:
        n.rotation_system = {untok(l): [untok(x) for x in nb] for l, nb in p["rot"]}
    return n


def mkitem(i):
    if i[0] == "none":
        return None
    if i[0] == "all":
        return untok(i[1])
    d = {untok(k): untok(v) for k, v in i[1].items()}
    return [d.get(k) for k in range(max(d) + 1)]


def execute(s):
    c, log, problems = s["c"], s["log"], []
    script = {(e["e"], e["t"], e.get("node", "")): e for e in log}
    used = []

    def take(kind, t, node=""):
        k = (kind, t, node)
        used.append(k)
        if k not in script:
            problems.append("unexpected_" + kind)
            return None
        if used.count(k) > 1:
            problems.append("repeated_" + kind)
        return script[k]

    def rule(ctx):
        e = take("rule", ctx.timestep, tok(ctx.node_label))
        if e is None:
            return ctx.current_activity
        x = e["x"]
        past = ctx.past_activities
        seen = {"acts": acts_rec(ctx.activities), "nl": [tok(n) for n in ctx.neighbour_labels], "na": [tok(n) for n in ctx.neighbourhood_activities],
                "conn": [[tok(i), [attr_rec(a) for a in es]] for i, es in ctx.connection_states.items()], "cur": tok(ctx.current_activity),
                "past": [] if past is None else [acts_rec(p) for p in past], "inp": tok(ctx.input)}
        want = dict(x, acts=E(x["acts"]), past=[E(p) for p in x["past"]], conn=[[i, [E(a) for a in es]] for i, es in x["conn"]])
        problems.extend("context_" + k for k in seen if seen[k] != want[k])
        if (past is None) != (not x["past"]):
            problems.append("context_past")
        for l in e["rem"]:
            ctx.remove_node(untok(l))
        for state, links, label in e["add"]:
            ctx.add_node(untok(state), {untok(t): attrs(a) for t, a in links}, untok(label))
        return untok(e["ret"])

    def pert(ctx):
        e = take("pert", ctx.timestep, tok(ctx.node_label))
        if e is None:
            return ctx.node_activity
        if tok(ctx.node_activity) != e["act"]:
            problems.append("perturbed_value")
        if tok(ctx.input) != e["inp"]:
            problems.append("perturbed_input")
        return untok(e["ret"])

    def topo(ctx):
        e = take("topo", ctx.timestep)
        if e is None:
            return ctx.network
        if acts_rec(ctx.activities) != E(e["acts"]):
            problems.append("topology_activities")
        return mknet(e["ret"])

    def inputf(t, a, n):
        e = take("input", t)
        return None if e is None else mkitem(e["ret"])

    kw = {"update_order": ORD[c["order"]], "topology_rule": topo if c["topo"] else None, "perturbation": pert if c["pert"] else None}
    if c["past"]:
        kw["past_conditions"] = [{untok(k): untok(v) for k, v in p.items()} for p in c["past"]]
    i = c["input"]
    if i["kind"] == "timesteps":
        kw["timesteps"] = i["n"]
    elif i["kind"] == "list":
        kw["input"] = [mkitem(x) for x in i["items"]]
    else:
        kw["input"] = inputf
    if c["memo"] != "none":
        kw["memoize"] = True
        if c["memo"] not in ("ordered", "bag"):
            kw["memoization_key"] = Key(c["memo"])
    o, t = guard(lambda: evolve(mknet(c["net"]), initial_conditions={untok(k): untok(v) for k, v in c["init"].items()}, activity_rule=rule, **kw))
    why = ""
    traj = []
    if o == "ok":
        traj = [{"a": x["a"], "n": x["n"]} for x in traj_rec(t)]
        if len(set(used)) != len(script):
            problems.append("missing_call")
    else:
        why = str(t)
    return {"out": o, "why": why, "traj": traj, "problems": problems}


if __name__ == "__main__":
    main(execute, None)
