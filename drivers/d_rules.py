"""Applications of the local cellular-automaton rules, in runs and one by one."""
from rec import *
from netomaton import evolve, rules, topology, NodeContext


def limbs(x):
    out = []
    while x:
        out.append(x % 32768)
        x //= 32768
    return out


def generate(rng, tier, args):
    out = []
    for i in range(args["n"]):
        kind = rng.choice(["bin", "nks", "tot", "tot", "major", "life", "wire", "bits", "bin"])
        s = {"fam": kind, "seed": rng.randrange(2 ** 31), "kind": kind, "run": rng.random() < 0.5, "cases": 12}
        if kind in ("bin", "nks"):
            s["r"] = rng.choice([1, 1, 1, 2, 2, 3])
            s["number"] = rng.choice([rng.randrange(2 ** (2 ** (2 * s["r"] + 1))), rng.randrange(256), 2 ** (2 ** (2 * s["r"] + 1)) - 1, 0])
        if kind == "tot":
            s["k"] = rng.choice([2, 2, 3, 3, 4, 5, 7, 10, 11, 16, 36])
            s["r"] = rng.choice([1, 1, 1, 2]) if s["k"] < 8 else 1
            s["two"] = rng.choice(["", "", "Moore", "von Neumann"]) if s["k"] < 5 else ""
            n = {"": 2 * s["r"] + 1, "Moore": 9, "von Neumann": 5}[s["two"]]
            top = s["k"] ** (n * (s["k"] - 1) + 1)
            s["number"] = rng.choice([rng.randrange(top), rng.randrange(top), rng.randrange(min(top, 5000)), top - 1, 0, top, top + rng.randrange(5)])
            s["n"] = n
        if kind == "major":
            s["k"] = rng.choice([2, 2, 3, 4])
            s["r"] = rng.choice([1, 1, 2, 3])
            s["pool"] = rng.choice([0, 0, 1, 2, 3, 4])
        out.append(s)
    return out


POOLS = [None, ["a", "b", "", "cd"], [0.5, -1.5, 0.1, 1e9], [(0, 1), (1, 0), (0, 0), (2,)], ["a", 1, None, 0.25]]


def context(nb, cur=None):
    n = len(nb)
    labels = list(range(n))
    mid = n // 2
    return NodeContext(mid, 1, {i: v for i, v in enumerate(nb)}, labels, list(nb), {i: [{}] for i in labels}, nb[mid] if cur is None else cur, None, None)


def num(v):
    v = v.item() if hasattr(v, "item") else v
    return int(v)


def execute(s):
    import random
    rng = random.Random(s["seed"])
    ev = []
    kind = s["kind"]
    rec = {"fam": s["fam"], "seed": s["seed"], "ev": ev}

    def rule():
        if kind == "bin":
            return rng.choice([lambda: rules.binary_ca_rule(s["number"]), lambda: rules.binary_ca_rule(s["number"], scheme=None), lambda: rules.binary_ca_rule(rule=s["number"])])()
        if kind == "nks":
            return rng.choice([lambda: rules.nks_ca_rule(s["number"]), lambda: rules.binary_ca_rule(s["number"], scheme="nks")])()
        if kind == "tot":
            return rules.totalistic_ca(s["k"], s["number"])
        return {"major": rules.majority_rule, "life": rules.game_of_life_rule, "wire": rules.wireworld_rule}[kind]

    def one(f, ctx):
        if kind == "major":
            say = lambda x: tok(x.item() if hasattr(x, "item") else x)
            v = f(ctx)
            outs = [say(v)] + [say(f(ctx)) for _ in range(120)]
            ev.append({"e": "major", "nb": [say(x) for x in ctx.neighbourhood_activities], "outs": sorted(set(outs))})
            return v
        nb, cur = [num(x) for x in ctx.neighbourhood_activities], num(ctx.current_activity)
        if kind in ("bin", "nks"):
            v = f(ctx)
            ev.append({"e": kind, "num": limbs(s["number"]), "nb": nb, "out": num(v)})
        elif kind == "tot":
            o, v = guard_plain(lambda: f(ctx))
            ev.append({"e": "tot", "num": limbs(s["number"]), "k": s["k"], "nb": nb, "out": num(v) if o else -1})
            if not o:
                v = 0
        else:
            v = f(ctx)
            ev.append({"e": kind, "nb": nb, "cur": cur, "out": num(v)})
        return v

    def guard_plain(fn):
        try:
            return True, fn()
        except Exception:
            return False, None

    def go():
        if kind == "bits":
            for _ in range(s["cases"]):
                w = rng.choice([1, 2, 3, 8, 15, 16, 32, 40])
                x = rng.choice([rng.randrange(2 ** w), 2 ** w - 1, 0])
                b = [num(v) for v in rules.int_to_bits(x, w)]
                ev.append({"e": "bits", "num": limbs(x), "width": w, "bits": b, "back": limbs(num(rules.bits_to_int(rng.choice([b, np.array(b)]))))})
            return
        f = rule()
        state = (lambda v: POOLS[s["pool"]][v]) if s.get("pool") else (lambda v: v)
        k = {"bin": 2, "nks": 2, "life": 2, "wire": 4}.get(kind) or s["k"]
        if s["run"]:
            if kind in ("life", "wire") or s.get("two"):
                rows, cols = rng.choice([(3, 3), (3, 4), (4, 4), (5, 4)])
                net = topology.cellular_automaton2d(rows, cols, r=1, neighbourhood=s.get("two") or "Moore")
                n = rows * cols
            else:
                n = rng.randint(2 * s["r"] + 1, 2 * s["r"] + 4)
                net = topology.cellular_automaton(n, r=s["r"])
            evolve(network=net, initial_conditions=[state(rng.randrange(k)) for _ in range(n)], activity_rule=lambda c: one(f, c), timesteps=3)
        else:
            n = 9 if kind in ("life", "wire") else s.get("n") or 2 * s["r"] + 1
            for _ in range(s["cases"]):
                nb = rng.choice([[rng.randrange(k) for _ in range(n)], [rng.choice([0, k - 1]) for _ in range(n)]])
                if kind == "wire":
                    nb = [rng.choice([0, 0, 0, 1, 2, 3]) for _ in range(n)]
                    nb[n // 2] = rng.choice([3, 3, 3, 0, 1, 2])
                one(f, context([state(v) for v in nb]))
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return rec


def replay(e):
    def go():
        if e["kind"] == "conv":
            return num(rules.bits_to_int(rules.int_to_bits(e["number"], 12)))
        f = {"nks": lambda: rules.nks_ca_rule(e["number"]), "bin": lambda: rules.binary_ca_rule(e["number"]), "tot": lambda: rules.totalistic_ca(e["k"], e["number"]),
             "life": lambda: rules.game_of_life_rule, "wire": lambda: rules.wireworld_rule}[e["kind"]]()
        try:
            return num(f(context(e["nb"])))
        except Exception:
            if e["kind"] == "tot":
                return -1
            raise
    o, v = guard(go)
    return {"out": o, "val": v}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
