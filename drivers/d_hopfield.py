"""Training and recall of Hopfield nets."""
from rec import *
from netomaton import evolve, HopfieldNet


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10] * 3 + [15, 16, 21])
        m = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 12])
        P = [[rng.choice([-1, 1]) for _ in range(n)] for _ in range(m)]
        for i in range(1, m):       # patterns that repeat
            if rng.random() < 0.15:
                P[i] = rng.choice(P[:i])[:]
        if m > 1 and rng.random() < 0.2:
            P[-1] = [-x for x in P[0]]
        start = rng.choice([[rng.choice([-1, 1]) for _ in range(n)], P[0], [-1] * n, [x if rng.random() < 0.8 else -x for x in P[-1]]])
        out.append({"fam": "", "seed": rng.randrange(2 ** 31), "n": n, "P": P, "start": start, "steps": rng.choice([2, n + 1, 2 * n + 1, 3 * n + 2]),
                    "again": rng.random() < 0.2, "retrain": rng.random() < 0.2, "np": rng.random() < 0.3})
    return out


def train_rec(net):
    a = net.adjacency_matrix
    return {"e": "train", "W": [[int(x) for x in r] for r in a], "n": int(net.num_nodes), "nodes": [int(x) for x in net.network.nodes],
            "edges": [[int(i), int(j), int(d["weight"])] for i, j, d in net.network.edges]}


def execute(s):
    ev = []
    rec = {"fam": s["fam"], "seed": s["seed"], "P": s["P"], "ev": ev}

    def go():
        net = HopfieldNet(n=s["n"])
        if s["retrain"]:
            net.train([[-x for x in p][::-1] for p in s["P"]] + [[1] * s["n"]])
        net.train([np.array(p) for p in s["P"]] if s["np"] else s["P"])
        ev.append(train_rec(net))
        for run in range(2 if s["again"] else 1):
            start = s["start"] if run == 0 else [-x for x in s["start"]]
            traj = evolve(initial_conditions=np.array(start) if s["np"] else list(start), network=net.network, activity_rule=net.activity_rule, timesteps=s["steps"])
            for t, x in enumerate(traj):
                ev.append({"e": "step" if t else "start", "s": [int(x.activities[i]) for i in range(s["n"])]})
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return rec


def replay(e):
    def go():
        net = HopfieldNet(n=len(e["P"][0]))
        net.train(e["P"])
        return train_rec(net)
    o, v = guard(go)
    return {"out": o, "W": v["W"] if o == "ok" else v, "edges": sorted(v["edges"]) if o == "ok" else v}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
