"""Growth histories of the fungal growth model."""
from rec import *
import netomaton as ntm


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        w, hh = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (5, 3), (4, 4), (5, 5), (6, 4)])
        big = rng.random() < 0.15
        if big:
            w, hh = rng.choice([(10, 10), (8, 12), (12, 7)])
        n = w * hh
        ic = [0] * n
        for _ in range(rng.choice([1, 1, 1, 2, 3, n // 2, n])):
            ic[rng.randrange(n)] = rng.choice([1, 1, 2, 3, 7, 12])
        if rng.random() < 0.03:
            ic = [0] * n
        layer = rng.choice([None, None, [1 if x else 0 for x in ic], [int(rng.random() < 0.3) for _ in ic], [0] * n, [1] * n])
        out.append({"fam": "", "seed": rng.randrange(2 ** 31), "w": w, "h": hh, "ic": ic, "layer": layer, "absorb": rng.choice([0, 1, 2, 5]),
                    "mseed": rng.choice([0, 1, rng.randrange(2 ** 31), rng.randrange(2 ** 31)]), "steps": rng.choice([2, 4, 8, 12] if not big else [8, 14]),
                    "float": rng.random() < 0.5, "copy": rng.choice([None, "model", True])})
    return out


UNIT = 1000


def run(s):
    # amounts of another magnitude (a power of two, so that scaling is exact)
    u = [1, 1, 1, 2.0 ** -40, 2.0 ** -10, 2.0 ** 50][s["seed"] % 6] if s["float"] else 1
    ic = [x * u for x in s["ic"]] if u != 1 else [float(x) for x in s["ic"]] if s["float"] else list(s["ic"])
    model = ntm.FungalGrowthModel(s["absorb"] * u, s["w"], s["h"], ic, resource_layer=[bool(x) for x in s["layer"]] if s["layer"] and s["seed"] % 2 else s["layer"], seed=s["mseed"], verbose=False)
    kw = {} if s["copy"] is None else {"copy_network": model.copy_network if s["copy"] == "model" else True}
    traj = ntm.evolve(initial_conditions=ic, network=model.network, activity_rule=model.activity_rule, topology_rule=model.topology_rule,
                      update_order=model.update_order, timesteps=s["steps"], **kw)
    ev = []
    for x in traj:
        a = [float(x.activities[i]) for i in range(s["w"] * s["h"])]
        ev.append({"e": "step", "R": [int(round(v / u * UNIT)) for v in a], "A": [v > 0 for v in a],
                   "L": [[int(i), int(j), int(round(d.get("weight", -1) * 1200))] for i, j, d in x.network.edges]})
    return ev


def execute(s):
    rec = {"fam": s["fam"], "seed": s["seed"], "w": s["w"], "h": s["h"], "ic": s["ic"], "layer": s["layer"] or [], "absorb": s["absorb"],
           "steps": s["steps"], "unit": UNIT, "exact": s["steps"]}
    o, v = guard(lambda: run(s), 60)
    o2, v2 = guard(lambda: run(s), 60) if o == "ok" else ("", [])
    rec["ev"] = (v if o == "ok" else []) + [{"e": "end", "out": o if o != "ok" else o2, "why": "" if o == "ok" else str(v)}]
    rec["again"] = v2 if o2 == "ok" else []
    return rec


if __name__ == "__main__":
    main(execute, generate)
