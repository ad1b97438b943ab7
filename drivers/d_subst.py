"""Runs of substitution systems."""
from rec import *
import itertools
from netomaton import evolve, SubstitutionSystem


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        ints = rng.random() < 0.5
        alpha = rng.choice([[1, 2], [1], [1, 2, 3], [0, 1], [4, 0, 9]] if ints else [["A", "B"], ["F"], ["A", "B", "C"], ["x", "-"], ["A", "b", "+", "["], ["a", "\t"], [" ", "n"], ["\n", " ", "0"], ["1", "2"], ["\u00e9", "e"], ["a", "A"]])
        w = rng.choice([1, 1, 2, 2, 3] if len(alpha) <= 2 else [1, 1, 2])
        consts, s0 = [], rng.randrange(4)      # a constant may have a rule too, which is then ignored
        if w == 1 and len(alpha) > 1 and rng.random() < 0.4:
            consts = rng.sample(alpha, rng.choice([1, 1, 2, len(alpha)])) if s0 else [rng.choice(alpha)]
        lens = rng.choice([[1], [0, 1], [1, 2], [0, 1, 2], [2], [1, 2, 3], [0, 3]])
        rules = [[list(x), [rng.choice(alpha) for _ in range(rng.choice(lens))]] for x in itertools.product(alpha, repeat=w)
                 if not (consts and x[0] in consts and s0 % 2)]
        rng.shuffle(rules)
        axiom = [rng.choice(alpha) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
        out.append({"fam": "ints" if ints else "chars", "seed": k, "axiom": axiom, "rules": rules, "consts": consts, "steps": rng.choice([1, 2, 3, 4, 5, 7])})
        if not (rules or consts):
            out.pop()
    return out


def limit(s):
    """Shortens runs that would grow too long."""
    n = len(s["axiom"])
    m = max([len(p) for _, p in s["rules"]] + [1])
    t = s["steps"]
    while t > 2 and n * m ** (t - 1) > 400:
        t -= 1
    return t


def sym(x):
    return x if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else str(x)


def num(v):
    v = v.item() if hasattr(v, "item") else v
    return int(v) if isinstance(v, (int, float)) and v == int(v) else str(v)


def execute(s):
    ints = s["fam"] == "ints"
    steps = limit(s)
    ev = []
    rec = {"fam": s["fam"], "seed": s["seed"], "axiom": s["axiom"], "rules": s["rules"], "consts": s["consts"], "steps": steps, "ev": ev}

    def go():
        rules = {"".join(str(x) for x in w): "".join(str(x) for x in p) for w, p in s["rules"]}
        axiom = s["axiom"] if ints else "".join(s["axiom"])
        if s["consts"]:
            sub = SubstitutionSystem(axiom, rules, constants=[str(c) for c in s["consts"]])
        else:
            sub = SubstitutionSystem(axiom, rules)
        if s["seed"] % 3 == 0:         # the system has been used before
            evolve(network=sub.network, initial_conditions=sub.initial_conditions, activity_rule=sub.activity_rule, timesteps=h(s["seed"]) % 3 + 1)
        tr = evolve(network=sub.network, initial_conditions=sub.initial_conditions, activity_rule=sub.activity_rule, timesteps=steps)
        st = [[sym(x.activities[k]) for k in sorted(x.activities)] for x in tr]
        ts = [list(x) for x in SubstitutionSystem.to_string(tr)] if not ints else []
        pad = [[num(v) for v in row] for row in SubstitutionSystem.pad(tr)] if ints else []
        return st, ts, pad
    o, r = guard(go)
    if o == "ok":
        st, ts, pad = r
        ev += [{"e": "state", "s": x} for x in st]
        ev.append({"e": "end", "out": "ok", "tostring": ts, "pad": pad})
    else:
        ev.append({"e": "end", "out": o, "why": str(r), "tostring": [], "pad": []})
    return rec


def replay(s):
    t = execute({"fam": "chars", "seed": 0, "axiom": s["strings"][0], "rules": s["rules"], "consts": [], "steps": len(s["strings"])})
    return {"strings": [e["s"] for e in t["ev"] if e["e"] == "state"], "out": t["ev"][-1]["out"], "to_string": t["ev"][-1]["tostring"]}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    limit_fn = limit
    if req["args"].get("mode") == "replay":
        limit = lambda s: s["steps"]
        main(replay, None)
    else:
        main(execute, generate)
