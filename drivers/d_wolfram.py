"""Runs of the Wolfram physics model."""
from rec import *
from netomaton import evolve, WolframPhysicsModel, Network

FIXED = [([["x", "y"]], [["x", "y"], ["y", "z"]]), ([["x", "y"], ["x", "z"]], [["x", "z"], ["x", "w"], ["y", "w"], ["z", "w"]]),
         ([["x", "y"], ["x", "z"]], [["x", "y"], ["x", "w"], ["y", "w"], ["z", "w"]]), ([["x", "y", "z"], ["u", "x"]], [["x", "u"], ["z", "x"], ["z", "y", "v"]]),
         ([["x", "y", "y"], ["z", "x", "u"]], [["y", "v", "y"], ["y", "z", "v"], ["u", "v", "v"]]), ([["x"]], [["x"], ["x", "y"]]),
         ([["x", "y"], ["y", "z"], ["z", "x"]], [["x", "w"], ["y", "w"], ["z", "w"]])]


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        if rng.random() < 0.25:
            lhs, rhs = rng.choice(FIXED)
        else:
            ar = rng.choice([[2], [2], [1, 2], [2, 3], [1, 2, 3], [3], [4, 2], [1], [4], [5, 2]])
            syms = rng.choice([["x", "y"], ["x", "y", "z"], ["x", "y", "z", "u"]])
            lhs = [[rng.choice(syms) for _ in range(rng.choice(ar))] for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            rs = syms + rng.choice([[], ["n1"], ["n1", "n2"], ["n1", "n2", "n3"]])
            rhs = [[rng.choice(rs) for _ in range(rng.choice(ar))] for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
            # symbols of the right-hand side that the left-hand side does not bind are new ones: allowed
        if rng.random() < 0.2:
            m = {s: i + 1 for i, s in enumerate(sorted({s for p in lhs + rhs for s in p}))}
            lhs, rhs = [[m[s] for s in p] for p in lhs], [[m[s] for s in p] for p in rhs]
        arl = [len(p) for p in lhs]
        labels = rng.choice([[1], [1, 2], [1, 2, 3], list(range(1, 6)), [0, 1, 2], [7, 3, 12], list(range(1, 12))])
        config = [[rng.choice(labels) for _ in range(rng.choice(arl + arl + [1, 2, 3]))] for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 12, 14]))]
        if rng.random() < 0.2:
            config += config[:3]
        # relations that fit a pattern but for one place
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            p = rng.choice(lhs)
            r = {x: rng.choice(labels) for x in p}
            r = [r[x] for x in p]
            if rng.random() < 0.7:
                r[rng.choice([-1, rng.randrange(len(r))])] = rng.choice(labels)
            config.insert(rng.randrange(len(config) + 1), r)
        steps = rng.choice([1, 2, 3, 4, 6])
        size = len(config)
        t = 1
        while t < steps and size + size // len(lhs) * len(rhs) <= 40:
            size += size // len(lhs) * max(0, len(rhs) - len(lhs))
            t += 1
        out.append({"fam": "rand", "seed": k, "lhs": lhs, "rhs": rhs, "config": config, "steps": t,
                    "flags": rng.choice([{}, {}, {"compression": True}, {"copy_network": False}, {"persist_activities": False}])})
    return out


def pyint(config):
    return [[int(x) for x in r] for r in config]


def execute(s):
    ev = []
    st = lambda pats: [[tok(x) for x in p] for p in pats]
    rec = {"fam": s["fam"], "seed": s["seed"], "lhs": st(s["lhs"]), "rhs": st(s["rhs"]), "config": s["config"], "steps": s["steps"], "ev": ev}

    def go():
        rules = {"in": [tuple(p) for p in s["lhs"]], "out": [tuple(p) for p in s["rhs"]]}
        m = WolframPhysicsModel([tuple(r) for r in s["config"]], rules)
        if s["steps"] > 2 and s["seed"] % 4 == 0:     # a run that is continued by another one
            traj = evolve(network=m.network, topology_rule=m.topology_rule, timesteps=s["steps"] - 1, **s["flags"])
            traj += evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2, **s["flags"])[1:]
        else:
            traj = evolve(network=m.network, topology_rule=m.topology_rule, timesteps=s["steps"], **s["flags"])
        cfgs = m.to_configurations(traj)
        if len(cfgs) != len(traj):
            raise AssertionError("configurations of another length")
        for c, x in zip(cfgs, traj):
            n = x.network
            c = pyint(c)
            again = pyint(WolframPhysicsModel.network_to_config(WolframPhysicsModel([tuple(r) for r in c], rules).network))
            conns = [[int(a), int(b), int(d.get("label", -1)), d.get("hyperedge_index", -1), 1 if "unary" in d else 0] for a, b in sorted(set((e[0], e[1]) for e in n.edges))
                     for d in n.edge(a, b)] if not ev else []
            ev.append({"e": "cfg", "conns": conns, "cfg": c, "nodes": [int(v) for v in n.nodes], "edges": [[int(e[0]), int(e[1])] for e in n.edges], "again": again})
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return rec


if __name__ == "__main__":
    main(execute, generate)
