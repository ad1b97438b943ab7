"""Runs of asynchronous automata."""
from rec import *
from netomaton import evolve, AsynchronousRule, Network, topology


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 8])
        kind = rng.choice(["fixed", "fixed", "fixed", "n", "rand", "randn"])
        labels = list(range(n))
        if kind not in ("n", "randn"):
            labels = rng.choice([labels, [10 * x + 3 for x in labels], ["v%d" % x for x in labels], [x - 2 for x in labels],
                                 [("a%d" % x if x % 2 else x) for x in labels], [x + 0.5 for x in labels], [1000 * x - 3000 for x in labels],
                                 [(x // 2, x % 2) for x in labels], ["the node number %d" % x for x in labels]])
        nodes = labels[:]
        rng.shuffle(nodes)
        order = labels[:]
        rng.shuffle(order)
        if kind in ("fixed", "rand"):
            order = order[:rng.choice([1, n, n, n, max(1, n - 1), rng.randint(1, n)])]
        edges = [[rng.choice(labels), rng.choice(labels)] for _ in range(rng.choice([0, n, 2 * n, 3 * n]))]
        out.append({"seed": rng.randrange(2 ** 31), "kind": kind, "nodes": nodes, "order": order, "edges": edges,
                    "ic": [rng.randrange(3) for _ in labels], "rule": rng.choice(["mix", "const", "time", "float", "str", "other"]),
                    "steps": rng.choice([1, 2, len(order), len(order) + 1, 2 * len(order) + 2, 3 * len(order) + 1]), "topo": rng.random() < 0.15,
                    "flags": rng.choice([{}, {}, {"compression": False}, {"persist_network": False}]),
                    "order_type": rng.choice(["list", "list", "tuple", "nd"])})
    for k in range(args["n"] // 20):
        out.append({"kind": "shuffles", "seed": rng.randrange(2 ** 31), "n": rng.choice([6, 7, 8, 10])})
    return out


def shuffles(s):
    """The orders in which rules made one after the other update the nodes, and the cycles of a rule that is randomised."""
    n, orders, cycles = s["n"], [], []

    def run(k, **kw):
        seen = []

        def f(ctx):
            seen.append(ctx.node_label)
            return 1
        evolve(network=topology.cellular_automaton(n), initial_conditions=[0] * n, activity_rule=AsynchronousRule(f, **kw), timesteps=k * n + 1)
        return seen

    def go():
        for _ in range(6):
            orders.append(run(1, n=n))
        seen = run(8, n=n, randomize_each_cycle=True)
        for k in range(8):
            cycles.append(seen[k * n:(k + 1) * n])
    o, v = guard(go)
    return {"fam": "shuffles", "seed": s["seed"], "kind": "shuffles", "order": list(range(n)), "nodes": [], "steps": 0,
            "ev": [{"e": "shuffles", "out": o, "orders": orders, "cycles": cycles, "why": str(v)}]}


def execute(s):
    if s["kind"] == "shuffles":
        return shuffles(s)
    fam = s["kind"]
    kind = {"randn": "rand"}.get(fam, fam)
    ev = []
    rec = {"fam": fam, "seed": s["seed"], "kind": kind, "order": [tok(x) for x in s["order"]], "nodes": [tok(x) for x in s["nodes"]], "steps": max(0, s["steps"] - 1), "ev": ev}
    net = Network()
    for x in s["nodes"]:
        net.add_node(x)
    for a, b in s["edges"]:
        net.add_edge(a, b)
    calls = []

    def wrapped(ctx):
        key = (s["rule"], ctx.current_activity, sorted(map(repr, ctx.neighbourhood_activities)), ctx.timestep)
        v = {"mix": h(*key) % 5, "const": 7, "time": ctx.timestep, "float": (h(*key) % 7) / 4, "str": "s%d" % (h(*key) % 4),
             "other": h(key, ctx.node_label) % 1000}[s["rule"]]
        calls.append((ctx.timestep, ctx.node_label, v, ctx.current_activity, list(ctx.neighbour_labels), list(ctx.neighbourhood_activities)))
        return v

    def go():
        if fam in ("n", "randn"):
            r = AsynchronousRule(wrapped, n=len(s["order"]), **given(s["seed"], {"randomize_each_cycle": False}, randomize_each_cycle=fam == "randn"))
        else:
            o = s["order"]
            if s["seed"] % 4 == 0:      # equal labels that are other objects
                o = [type(x)(y + x[-1:]) if isinstance(x, str) else tuple(list(x)) if isinstance(x, tuple) else type(x)(repr(x)) for x in o for y in [x[:-1] if isinstance(x, str) else ""]]
            if s["order_type"] == "tuple":
                o = tuple(o)
            elif s["order_type"] == "nd" and all(isinstance(x, int) for x in o):
                o = np.array(o)
                o = list(o) if fam == "fixed" and s["seed"] % 2 else o
            r = AsynchronousRule(activity_rule=wrapped, update_order=o, **given(s["seed"], {"randomize_each_cycle": False}, randomize_each_cycle=fam == "rand"))
        kw = dict(s["flags"])
        if s["topo"]:
            kw["topology_rule"] = lambda ctx: ctx.network
        return evolve(network=net, initial_conditions=dict(zip(s["nodes"], s["ic"])), activity_rule=r, timesteps=s["steps"], **kw)
    o, traj = guard(go)
    if o == "ok":
        rows = [x.activities for x in traj]
        for t in range(1, len(rows)):
            mine = [c for c in calls if c[0] == t]
            prev, nxt = acts_rec(rows[t - 1]), acts_rec(rows[t])
            ctxok = all(tok(c[3]) == prev.get(tok(c[1])) and [tok(x) for x in c[5]] == [prev.get(tok(l)) for l in c[4]] for c in mine)
            ev.append({"e": "step", "calls": [[tok(c[1]), tok(c[2])] for c in mine], "prev": prev, "next": nxt, "ctxok": ctxok})
    ev.append({"e": "end", "out": o, "why": str(traj) if o != "ok" else ""})
    return rec


def replay(s):
    net = Network()
    for x in s["nodes"]:
        net.add_node(x)
    for i, x in enumerate(s["nodes"]):
        net.add_edge(s["nodes"][i - 1], x)
    ran = []
    k = s["k"]

    def wrapped(ctx):
        ran.append(ctx.node_label)
        return (ctx.current_activity + 2 * ctx.neighbourhood_activities[0] + ctx.timestep + 1) % k

    def go():
        r = AsynchronousRule(wrapped, update_order=list(s["order"]))
        traj = evolve(network=net, initial_conditions={x: x * x % k for x in s["nodes"]}, activity_rule=r, timesteps=len(s["acts"]) + 1)
        return [[x.activities.get(n) for n in s["nodes"]] for x in traj[1:]]
    o, v = guard(go)
    return {"out": o, "acts": v if o == "ok" else str(v), "ran": ran}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
