"""Runs of CTRBL rules and of Langton's loop."""
from rec import *
import itertools
from netomaton import evolve, CTRBLRule, LangtonsLoop


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        rows, cols = rng.choice([(3, 3), (3, 4), (4, 3), (3, 5), (5, 3), (4, 4), (4, 6), (6, 4), (5, 5), (3, 8), (8, 3), (4, 11), (9, 5)])
        states = rng.choice([[0, 1], [0, 1], [0, 1, 2], ["a", "b"], [3, 7], ["", "a b"], [(0, 1), (1, 0)], [-1, 1000], [0.5, 2], [0, 1, 2, 3], [False, True]])
        rot = rng.random() < 0.5
        table, seen = [], set()
        keys = list(itertools.product(states, repeat=5))
        rng.shuffle(keys)
        drop = rng.choice([0, 0, 0, 0.03, 0.2])
        const = rng.random() < 0.15
        for key in keys:
            if key in seen:
                continue
            if rot:
                r = list(key)
                for _ in range(4):
                    r = [r[0]] + r[2:] + [r[1]]
                    seen.add(tuple(r))
                # an entry may be stated more than once, in several of its rotations
                if rng.random() < drop:
                    continue
                img = rng.choice(states)
                table.append([list(key), img])
                if rng.random() < 0.2:
                    table.append([[key[0]] + list(key[2:]) + [key[1]], img])
            elif rng.random() >= drop:
                table.append([list(key), rng.choice(states)])
        table = [t for i, t in enumerate(table) if all(t[0] != u[0] for u in table[:i])]
        ic = [states[0] if const else rng.choice(states) for _ in range(rows * cols)]
        if rng.random() < 0.3:
            ic = [states[0]] * (rows * cols)
            ic[rng.randrange(len(ic))] = states[1]
        out.append({"fam": "rot" if rot else "plain", "seed": k, "rows": rows, "cols": cols, "rot": rot, "table": table, "ic": ic, "steps": rng.choice([2, 3, 4, 6]),
                    "loops": [], "langton": False, "flags": rng.choice([{}, {}, {"memoize": True}, {"persist_network": False}])})
    for k in range(args.get("langton", 0)):
        two = rng.random() < 0.4
        rows, cols = rng.choice([(24, 24), (20, 30), (26, 22)]) if not two else (28, 40)
        loops = [[rng.randint(0, 2) if two else rng.randint(0, rows - 10), rng.randint(1, 4) if two else rng.randint(1, cols - 14)]]
        if two:
            loops.append([rng.randint(13, rows - 10), rng.randint(20, cols - 14)])
        out.append({"fam": "langton", "seed": k, "rows": rows, "cols": cols, "rot": True, "table": [], "ic": [], "steps": rng.choice([2, 5, 9]) if tier == "quick" else rng.choice([5, 20, 40]),
                    "loops": loops, "langton": True, "flags": {"persist_network": False}})
    return out


def val(x):
    return x.item() if hasattr(x, "item") else x


def execute(s):
    ev = []
    t = (lambda x: int(x)) if s["langton"] else tok
    rec = {k: s[k] for k in ("fam", "seed", "rows", "cols", "rot", "steps", "loops", "langton")}
    rec.update(table=[[[t(x) for x in k], t(v)] for k, v in s["table"]], ic=[t(x) for x in s["ic"]], ev=ev)
    dim = (s["rows"], s["cols"])
    N = dim[0] * dim[1]

    def go():
        if s["langton"]:
            r = LangtonsLoop(dim=dim)
            ic = [int(x) for x in r.init_loops(len(s["loops"]), [l[0] for l in s["loops"]], [l[1] for l in s["loops"]])]
            ev.append({"e": "loops", "g": ic})
            rec["ic"] = ic
        else:
            table = {tuple(k): v for k, v in s["table"]}
            before = dict(table)
            r = CTRBLRule(dim=dim, rule_table=table, **given(s["seed"], {"add_rotations": False}, add_rotations=s["rot"]))
            if table != before:
                raise AssertionError("the table that was given was changed")
            ic = s["ic"]
        if s["seed"] % 5 == 0:   # the rule has been used before
            guard(lambda: evolve(network=r.network, initial_conditions=list(ic)[::-1], activity_rule=r.activity_rule, timesteps=3))
        ev.append({"e": "table", "t": [[[t(x) for x in k], t(v)] for k, v in r.rule_table.items()]})
        nm = r.neighbourhood_map
        ev.append({"e": "map", "m": [[int(x) for x in (nm[c].center, nm[c].top, nm[c].right, nm[c].bottom, nm[c].left)] for c in sorted(nm)]})
        # one more state at a time, so that the states before an error are seen
        traj = None
        seen = [0]

        def rule(ctx):
            return r.activity_rule(ctx)

        def inp(step, acts, net):
            ev.append({"e": "step", "g": [t(val(acts[i])) for i in range(N)]})
            return step if step < s["steps"] else None
        evolve(network=r.network, initial_conditions=list(ic), activity_rule=rule, input=inp, **s["flags"])
    o, v = guard(go, 60)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return rec


def replay(e):
    if "g" in e:
        r = execute({"fam": "x", "seed": 0, "rows": e["rows"], "cols": e["cols"], "rot": True, "table": [], "ic": [], "steps": e["steps"], "loops": e["loops"], "langton": True, "flags": {"persist_network": False}})
    else:
        r = execute({"fam": "x", "seed": 0, "rows": e["rows"], "cols": e["cols"], "rot": False, "table": e["table"], "ic": e["hist"][0], "steps": len(e["hist"]), "loops": [], "langton": False, "flags": {}})
    st = [x["g"] for x in r["ev"] if x["e"] == "step"]
    return {"out": r["ev"][-1]["out"], "g": st, "hist": [[untok(v) for v in row] for row in st] if "hist" in e else []}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
