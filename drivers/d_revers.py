"""Runs of reversible automata, forwards and backwards."""
from rec import *
from netomaton import evolve, ReversibleRule, Network, topology, rules


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        ring = rng.random() < 0.4
        n = rng.choice([3, 4, 5, 7, 9, 13]) if ring else rng.choice([1, 2, 3, 4, 5, 6])
        labels = list(range(n))
        if not ring:
            labels = rng.choice([labels, [7 * x + 2 for x in labels], ["v%d" % x for x in labels], [-x for x in labels], [(x, -x) for x in labels], [x + 0.5 for x in labels], [300 * x for x in labels]])
            rng.shuffle(labels)
        npast = rng.choice([1, 1, 1, 2, 3, 5])
        out.append({"seed": rng.randrange(2 ** 31), "fam": "ring" if ring else "net", "labels": labels,
                    "rule": rng.choice(["bin", "nks", "np", "bool"]) if ring else rng.choice(["tab", "tablabel", "xor", "neg", "np"]), "number": rng.randrange(256),
                    "edges": [] if ring else [[rng.choice(labels), rng.choice(labels)] for _ in range(rng.randint(0, 3 * n))],
                    "past": [[rng.randrange(2) for _ in labels] for _ in range(npast)], "ic": [rng.randrange(2) for _ in labels],
                    "dicts": rng.random() < 0.4, "steps": rng.choice([2, 3, 4, 5, 9, 16, 30]),
                    "flags": rng.choice([{}, {}, {"compression": False}, {"persist_network": False}, {"persist_activities": True, "compression": False}, {"rot": 1}])})
    return out


def execute(s):
    ev = []
    labels = s["labels"]
    past, ic = s["past"], s["ic"]
    # list conditions give the value of label i at position i
    lists = sorted(map(str, labels)) == sorted(map(str, range(len(labels)))) and not s["dicts"]
    d = lambda row: [row[labels.index(i)] for i in range(len(labels))] if lists else dict(zip(labels, row))
    rec = {"fam": s["fam"], "seed": s["seed"], "past": past[-1], "ic": ic, "steps": s["steps"], "ev": ev}
    flags = {k: v for k, v in s["flags"].items() if k != "rot"}

    def build():
        if s["fam"] == "ring":
            return topology.cellular_automaton(len(labels))
        n = Network()
        for x in labels:
            n.add_node(x)
        for a, b in s["edges"]:
            n.add_edge(a, b)
        if "rot" in s["flags"]:
            n.rotation_system = {x: tuple(sorted(n.in_edges(x), key=repr)) for x in labels}
        return n

    def base(ctx):
        nb = [int(x) for x in ctx.neighbourhood_activities]
        r = s["rule"]
        if r in ("bin", "nks"):
            return (rules.binary_ca_rule if r == "bin" else rules.nks_ca_rule)(s["number"])(ctx)
        if r == "xor":
            return sum(nb) % 2
        if r == "neg":
            return 1 - int(ctx.current_activity)
        key = (nb, int(ctx.current_activity), s["number"], list(map(str, ctx.neighbour_labels)))
        if r == "tablabel":
            key = key + (ctx.node_label,)
        v = h(key) // 3 % 2
        return {"np": np.int64, "bool": bool}.get(r, int)(v)

    log = {}

    def wrapped(ctx):
        v = base(ctx)
        log.setdefault(ctx.timestep, {})[ctx.node_label] = int(v)
        return v
    # one rule object and one network for both directions, or new ones
    same = s["seed"] % 2
    rule, net = ReversibleRule(wrapped), guard(build)[1]

    def run(p, c, steps):
        log.clear()
        traj = evolve(network=net if same else build(), initial_conditions=d(c), past_conditions=[d(x) for x in p],
                      activity_rule=rule if same else ReversibleRule(wrapped), timesteps=steps, **flags)
        rows = [[int(x.activities[l]) for l in labels] for x in traj]
        return [{"res": [log[t][l] for l in labels], "act": rows[t]} for t in range(1, len(rows))]

    def go():
        f = run(past, ic, s["steps"])
        h = past + [ic] + [x["act"] for x in f]
        ev.extend(dict(x, e="fwd") for x in f)
        for x in run(h[-len(past):], h[-2], s["steps"]):
            ev.append(dict(x, e="bwd"))
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return rec


def replay(s):
    n = len(s["hist"][0])

    def go():
        def once(p, c):
            traj = evolve(network=topology.cellular_automaton(n), initial_conditions=c, past_conditions=[p],
                          activity_rule=ReversibleRule(binary_rule(s["rule"])), timesteps=len(s["hist"]) - 1)
            return [p] + [[int(x.activities[i]) for i in range(n)] for x in traj]
        f = once(s["hist"][0], s["hist"][1])
        return f, once(f[-1], f[-2])[::-1]
    o, v = guard(go)
    return {"out": o, "hist": v[0] if o == "ok" else v, "back": v[1] if o == "ok" else v}


def binary_rule(number):
    return lambda ctx: number >> (4 * ctx.neighbourhood_activities[0] + 2 * ctx.neighbourhood_activities[1] + ctx.neighbourhood_activities[2]) & 1


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
