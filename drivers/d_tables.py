"""Rule tables: random construction, walks, look-ups."""
from rec import *
import netomaton as ntm


def generate(rng, tier, args):
    out = []
    for _ in range(args["n"]):
        k, r = rng.choice([(2, 0), (2, 1), (2, 1), (2, 2), (2, 3), (3, 1), (3, 1), (3, 2), (4, 1), (5, 1), (6, 1), (3, 0), (7, 0), (10, 0)])
        if rng.random() < 0.15:
            k, r = rng.choice([(11, 0), (12, 0), (16, 0), (17, 0), (20, 0), (25, 0), (36, 0), (36, 0)])
        if rng.random() < 0.04:
            k, r = rng.choice([(10, 1), (2, 4), (8, 1), (9, 1), (11, 1)])
        ln, ld = rng.choice([(0, 10), (10, 10), (5, 10), (rng.randint(1, 9), 10), (k - 1, k)])
        walks = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            td = rng.choice([10, 100, k ** (2 * r + 1), k])
            walks.append([rng.choice([0, td, rng.randint(0, td), rng.randint(0, td), rng.randint(0, td)]), td])
        cells = max(3, rng.randint(2 * r + 1, 2 * r + 5))
        out.append({"fam": "", "seed": rng.randrange(2 ** 31), "k": k, "n": 2 * r + 1, "r": r, "ln": ln, "ld": ld, "default": ld == k and ln == k - 1,
                    "q": rng.choice([-1, 0, k - 1, rng.randrange(k)]), "strong": rng.random() < 0.4, "iso": rng.random() < 0.4,
                    "walks": walks, "cells": [rng.randrange(k) for _ in range(cells)], "steps": rng.choice([0, 3, 5]),
                    "missing": sorted(set(rng.randrange(k ** (2 * r + 1)) for _ in range(rng.choice([0, 0, 1, 3])))), "extra": rng.random() < 0.2})
    return out


def table_rec(e, table, lam, q, size):
    keys = sorted(table)
    num = int(round(lam * size))
    return {"e": e, "keys": [[int(c, 36) for c in s] for s in keys], "T": [int(table[s]) for s in keys], "lam": num,
            "off": int(abs(lam * size - num) > 1e-9), "q": int(q)}


def execute(s):
    ev = []
    k, n, r = s["k"], s["n"], s["r"]
    size = k ** n

    def go():
        kw = {}
        opts = given(s["seed"], {"strong_quiescence": False, "isotropic": False}, strong_quiescence=s["strong"], isotropic=s["iso"])
        if not s["default"]:
            kw["lambda_val"] = s["ln"] / s["ld"]
        if s["q"] >= 0:
            kw["quiescent_state"] = s["q"]
        table, lam, q = ntm.random_rule_table(k=k, r=r, **opts, **kw)
        ev.append(table_rec("random", table, lam, q, size))
        for tn, td in s["walks"]:
            table, lam = ntm.table_walk_through(dict(table), tn / td, k, r, q, **opts)
            e = table_rec("walk", table, lam, q, size)
            e.update(tn=tn, td=td)
            ev.append(e)
        if s["steps"]:
            keys = sorted(table)
            small = {x: table[x] for j, x in enumerate(keys) if j not in s["missing"]}
            rule = ntm.table_rule(small)
            init = list(s["cells"])
            if s["extra"]:
                init[0] = k

            def logged(ctx):
                nb = [int(x) for x in ctx.neighbourhood_activities]
                try:
                    v = int(rule(ctx))
                except Exception:
                    v = -1
                ev.append({"e": "lookup", "nb": nb, "got": v})
                return v if v >= 0 else 0
            ntm.evolve(initial_conditions=init, network=ntm.topology.cellular_automaton(n=len(init), r=r), activity_rule=logged, timesteps=s["steps"])
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return {"fam": s["fam"], "seed": s["seed"], "k": k, "n": n, "ln": s["ln"], "ld": s["ld"], "q": s["q"], "strong": s["strong"], "iso": s["iso"],
            "missing": s["missing"], "ev": ev}


def replay(g):
    """Runs the walk of one starting point several times and reports the tables it ended with."""
    k, n = g["k"], g["n"]
    keys = [np.base_repr(i, k).zfill(n) for i in range(k ** n)]

    def go():
        got = []
        for _ in range(g["times"]):
            t, lam = ntm.table_walk_through(dict(zip(keys, g["T0"])), g["tn"] / g["td"], k, (n - 1) // 2, g["q"], strong_quiescence=g["strong"], isotropic=g["iso"])
            f = [t[x] for x in keys]
            if f not in got:
                got.append(f)
        return got
    o, v = guard(go)
    return {"out": o, "F": v}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
