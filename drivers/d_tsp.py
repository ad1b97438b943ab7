"""The Hopfield-Tank network: distances, tours, updates."""
from rec import *
import netomaton as ntm


def generate(rng, tier, args):
    out = []
    for _ in range(args["n"]):
        n = rng.choice([2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9 if tier == "thorough" else 7])
        P = [[rng.randint(0, 30), rng.randint(0, 30)] for _ in range(n)]
        if rng.random() < 0.2:
            P = [[x - 15, y - 15] for x, y in P]
        Ms = []
        for _ in range(3):
            m = rng.choice([n, n, 6, 8])
            perm = list(range(n))
            rng.shuffle(perm)
            if rng.random() < 0.3:
                perm[rng.randrange(n)] = rng.randrange(n)
            top = rng.choice([1, 1, 9])
            Ms.append([[(top if c == perm[x] else rng.randint(0, top - 1)) for c in range(n)] for x in range(n)])
        out.append({"fam": "", "seed": rng.randrange(2 ** 31), "P": P, "scale": rng.choice([1, 1, 10, 100, 10000]), "Ms": Ms,
                    "h": {"A": rng.choice([0, 2, 4, 10, 1, 3]), "B": rng.choice([0, 2, 6, 10, 1, 5]), "C": rng.choice([0, 2, 4, 1]), "D": rng.choice([0, 2, 4, 1]), "n": rng.choice([n, n + 1, 15]),
                          "dt4": rng.choice([4, 2, 1])},
                    "u": [rng.choice([-100, -1, 0, 1, 5, 100]) for _ in range(n * n)], "steps": rng.choice([2, 2, 3]), "np": rng.random() < 0.5})
    return out


def half(x):
    return x / 2 if x % 2 else x // 2


def net(s):
    pts = [(x / s["scale"], y / s["scale"]) if s["scale"] != 1 else (x, y) for x, y in s["P"]]
    h = s["h"]
    return pts, ntm.HopfieldTankTSPNet(pts, dt=h["dt4"] / 4, A=half(h["A"]), B=half(h["B"]), C=half(h["C"]), D=half(h["D"]) * s["scale"], **given(s["seed"], {"n": 15}, n=h["n"]))


def tour(t, pts, M, as_np):
    e = {"e": "tour", "M": M, "out": "refused"}
    try:
        G, pos, length = t.get_tour_graph(pts, np.array(M) if as_np else M)
    except Exception:
        return e, None, None
    e.update(out="ok", nodes=[int(x) for x in G.nodes], edges=[[int(a), int(b)] for a, b in G.edges])
    return e, pos, length


def execute(s):
    ev = []
    n = len(s["P"])

    def go():
        pts, t = net(s)
        sc = s["scale"]
        ev.append({"e": "distances", "d": [[int(a), int(b), int(round(d * sc * 1000))] for a, b, d in t.get_distances()]})
        adj = t.adjacency_matrix
        ev.append({"e": "adjacency", "rows": len(adj), "cols": len(adj[0]), "ones": sum(1 for r in adj for x in r if x == 1)})
        for M in s["Ms"]:
            e, pos, length = tour(t, pts, M, s["np"])
            if e["out"] == "ok":
                e.update(length=int(round(length * sc * 1000)), pos=[[int(round(c * sc)) for c in pos[i]] for i in range(n)])
            ev.append(e)
        traj = ntm.evolve(initial_conditions=[float(x) for x in s["u"]], network=ntm.topology.from_adjacency_matrix(adj), activity_rule=t.activity_rule, timesteps=s["steps"])
        for x in traj:
            a = [float(x.activities[i]) for i in range(n * n)]
            ev.append({"e": "state", "u": [int(round(z * 1000)) for z in a], "v": [2 if z >= 1 else 0 if z <= -1 else 1 if z == 0 else -1 for z in a]})
        rows = [[float(z) for z in s["u"]][::-1], [float(z) for z in s["u"]]]
        V = t.get_permutation_matrix(np.array(rows) if s["np"] else rows)
        ev.append({"e": "permutation", "u": s["u"], "V": [[int(round(2 * float(z))) for z in r] for r in V]})
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return {"fam": s["fam"], "seed": s["seed"], "P": s["P"], "h": s["h"], "ev": ev}


def replay(b):
    def go():
        pts = [tuple(p) for p in b["P"]]
        e, pos, length = tour(ntm.HopfieldTankTSPNet(pts), pts, b["M"], False)
        if e["out"] == "refused":
            return {"conflict": True, "edges": [], "length": 0}
        return {"conflict": False, "edges": sorted(sorted(x) for x in e["edges"]), "length": length * 1000}
    o, v = guard(go)
    return dict(out=o, **(v if o == "ok" else {}))


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
