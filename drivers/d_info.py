"""Information measures of strings, activity tables and trajectories."""
from rec import *
import netomaton as ntm

UNIT = 100000
REFUSED = -1000000
ALPHABETS = [[0, 1], [0, 1, 2], [10, 1, 0, 11, 101], [-1, 1], [-1, 0, 1, 11, -11], [0.5, 1.5, 0.25], [7], list(range(30)), [True, False],
             [0.123456781, 0.123456782, 0.12345678], [0.1 + 0.2, 0.3], [2 ** 40, 2 ** 40 + 1, -2 ** 40], ["a" * 40, "a" * 40 + "b", "b" + "a" * 40],
             [1e300, -1e300, 1e-300, 0.0], ["\u00e9\u00e8", "\u00e9", "e", ""], [2 ** 53, 2 ** 53 - 1],
             ["a", "b"], ["ab", "a", "b", "ba"], [100, 1000, 10], [1, 12, 2, 21, 112]]


def generate(rng, tier, args):
    out = []
    for _ in range(args["n"]):
        ab = rng.choice(ALPHABETS)
        m, t = rng.randint(1, 7), rng.choice([1, 2, 3, 4, 5, 8, 16, 31, 40])
        rows = [[rng.choice(ab) for _ in range(m)] for _ in range(t)]
        if rng.random() < 0.3:   # correlated in time
            p = rng.randint(1, 4)
            rows = [rows[i % min(p, t)] for i in range(t)]
        chars = rng.choice(["01", "012", "aBcd1234ef5g", "ab ", "0", "9876543210", "\u00e9\u00e8e"])
        n = rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 64])
        x = "".join(rng.choice(chars) for _ in range(n))
        y = rng.choice(["".join(rng.choice(chars) for _ in range(n)), x, x[::-1], x[1:] + x[:1], "".join(rng.choice("xyz") for _ in range(n))])
        out.append({"fam": "", "seed": rng.randrange(2 ** 31), "rows": rows, "x": x, "y": y, "how": rng.choice(["list", "list", "traj", "array", "evolve"]),
                    "dist": sorted(set([1, t - 1, t, 0, rng.randint(1, t), rng.choice([-1, t + 3, rng.randint(1, t)])]))})
    # long sequences with rare symbols
    for k in range(max(12, args["n"] // 25)):
        n = rng.choice([150, 400, 1000, 1024, 1500])
        x = ["0"] * n
        for c in "123":
            for _ in range(rng.choice([0, 1, 1, 2, n // 5])):
                x[rng.randrange(n)] = c
        y = rng.choice([x, x[3:] + x[:3], ["a"] * n, [rng.choice("01") for _ in range(n)]])
        out.append({"fam": "long", "seed": rng.randrange(2 ** 31), "x": "".join(x), "y": "".join(y)})
    return out


def fix(v):
    return int(round(float(v) * UNIT))


def measured(fn):
    try:
        return fix(fn())
    except Exception:
        return REFUSED


def make(s):
    """The activities as the caller would have them, and as rows of tokens in label order."""
    rows = s["rows"]
    m = len(rows[0])
    if s["how"] in ("traj", "evolve"):
        if s["how"] == "evolve":
            f = {}
            net = ntm.topology.from_adjacency_matrix([[1 if i == j else 0 for j in range(m)] for i in range(m)])
            traj = ntm.evolve(initial_conditions=list(rows[0]), network=net, timesteps=len(rows),
                              activity_rule=lambda c: rows[c.timestep][c.node_label])
        else:
            order = list(range(m))[::-1]
            traj = [ntm.State(activities={i: r[i] for i in order}, network=None) for r in rows]
        return traj, [[tok(x.activities[i]) for i in range(m)] for x in traj]
    data = np.array(rows) if s["how"] == "array" else [list(r) for r in rows]
    return data, [[tok(v) for v in r] for r in rows]


def execute(s):
    ev = []

    def go():
        x, y = s["x"], s["y"]
        if s["fam"] == "long":
            for e, v in (("HL", lambda: ntm.shannon_entropy(x)), ("JL", lambda: ntm.joint_shannon_entropy(x, y)), ("MIL", lambda: ntm.mutual_information(x, y))):
                ev.append({"e": e, "x": list(x), "y": list(y), "h": int(round(float(v()) * 10000))})
            return
        ev.append({"e": "H", "x": list(x), "h": fix(ntm.shannon_entropy(x))})
        ev.append({"e": "H", "x": list(y), "h": fix(ntm.shannon_entropy(y))})
        ev.append({"e": "J", "x": list(x), "y": list(y), "h": fix(ntm.joint_shannon_entropy(x, y))})
        ev.append({"e": "MI", "x": list(x), "y": list(y), "h": fix(ntm.mutual_information(x, y))})
        data, rows = make(s)
        ev.append({"e": "avgH", "rows": rows, "h": fix(ntm.average_node_entropy(data))})
        for d in s["dist"]:
            ev.append({"e": "avgMI", "rows": rows, "d": d, "h": measured(lambda: ntm.average_mutual_information(data, temporal_distance=d))})
        ev.append({"e": "avgMI", "rows": rows, "d": 1, "h": measured(lambda: ntm.average_mutual_information(data))})
        ev.append({"e": "empty", "h": measured(lambda: ntm.average_node_entropy([]))})
        ev.append({"e": "empty", "h": measured(lambda: ntm.average_mutual_information([]))})
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return {"fam": s["fam"], "seed": s["seed"], "ev": ev}


def replay(e):
    """The measures of one pair of sequences, times their length."""
    def go():
        x, y = ["".join(chr(96 + v) for v in e[z]) for z in "xy"]
        n = len(x)
        return {"h": n * ntm.shannon_entropy(x) * UNIT, "j": n * ntm.joint_shannon_entropy(x, y) * UNIT, "mi": n * ntm.mutual_information(x, y) * UNIT}
    o, v = guard(go)
    return dict({"out": o}, **({k: float(z) for k, z in v.items()} if o == "ok" else {}))


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
