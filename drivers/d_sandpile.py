"""Runs of the sandpile."""
from rec import *
from netomaton import evolve, Sandpile


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        rows, cols = rng.choice([(3, 3), (3, 4), (4, 3), (4, 4), (5, 4), (4, 6), (5, 5), (3, 7), (7, 3), (6, 5), (3, 9), (8, 4), (9, 9)])
        hs = rng.choice([[0, 3, 4], [0, 1, 2, 3], [0, 4, 8, 20], [3, 4, 5], [0, 100], [4], [3], [7, 8], [0, 2 ** 20, 3], [12, 13, 4, 9, 0]])
        N = rows * cols
        ic = [rng.choice(hs) for _ in range(N)]
        if rng.random() < 0.25:
            ic = [0] * N
            ic[rng.choice([0, N // 2, N - 1, rng.randrange(N), cols + 1])] = rng.choice([4, 5, 17, 64])
        steps = rng.choice([2, 3, 5, 9, 14, 25])
        drops = [[t, rng.randrange(N), rng.choice([1, 1, 2, 5])] for t in range(1, steps) if rng.random() < rng.choice([0, 0, 0.4])]
        out.append({"fam": "", "seed": k, "rows": rows, "cols": cols, "closed": rng.random() < 0.55, "ic": ic, "steps": steps, "drops": drops,
                    "style": rng.choice(["kw", "pos", "default", "npic"]), "flags": rng.choice([{}, {}, {"persist_network": False}, {"compression": True}]), "used": rng.random() < 0.2})
    return out


def execute(s):
    ev = []
    closed = s["closed"] or s["style"] == "default"
    rec = {"fam": "closed" if closed else "open", "seed": s["seed"], "rows": s["rows"], "cols": s["cols"], "closed": closed, "ic": s["ic"], "steps": s["steps"], "ev": ev}
    drops = {(t, c): a for t, c, a in s["drops"]}
    N = s["rows"] * s["cols"]

    def go():
        if s["style"] == "default":
            m = Sandpile(s["rows"], s["cols"])
        elif s["style"] == "pos":
            m = Sandpile(s["rows"], s["cols"], closed)
        else:
            m = Sandpile(rows=s["rows"], cols=s["cols"], is_closed_boundary=closed)
        kw = dict(s["flags"])
        if s["used"]:   # the pile has been run before
            evolve(network=m.network, initial_conditions=[(7 * i) % 9 for i in range(N)], activity_rule=m.activity_rule, timesteps=3)
        if drops:
            kw["perturbation"] = lambda c: c.node_activity + drops.get((c.timestep, c.node_label), 0)
        ic = np.array(s["ic"]) if s["style"] == "npic" else list(s["ic"])
        traj = evolve(network=m.network, initial_conditions=ic, activity_rule=m.activity_rule, timesteps=s["steps"], **kw)
        for t, x in enumerate(traj):
            a = x.activities
            ev.append({"e": "step", "g": [int(a[i]) for i in range(N)], "drops": [[c, n] for (u, c), n in drops.items() if u == t]})
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return rec


def replay(e):
    r = execute({"seed": 0, "rows": e["rows"], "cols": e["cols"], "closed": e["closed"], "ic": e["hist"][0], "steps": len(e["hist"]), "style": "kw", "flags": {}, "used": False,
                 "drops": [[t + 1, d - 1, 1] for t, d in enumerate(e["drops"]) if d > 0]})
    return {"out": r["ev"][-1]["out"], "hist": [x["g"] for x in r["ev"] if x["e"] == "step"]}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
