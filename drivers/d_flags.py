"""Records the same run under different persistence, compression and copying flags."""
from rec import *
import itertools
import netomaton as ntm
import d_engine
from d_engine import Run, scenario, traj_rec


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        r = random.Random("%s/%d" % (rng.random(), k))
        s = scenario(r, "C12", k)
        if s["input"]["kind"] == "neither":
            continue
        s["copy"] = True
        copyable = s["topo"] in (None, "id", "fresh")
        rot = s["net"]["rot"]
        if rot and s["topo"]:
            s["copy"] = False          # copying loses the rotation system: see the scenario below
        combos = [dict(compression=c, persist_activities=a, persist_network=n, copy_network=y)
                  for c, a, n, y in itertools.product([False, True], repeat=4)]
        if not copyable or (rot and s["topo"]):
            combos = [c for c in combos if c["copy_network"] == s["copy"]]
        r.shuffle(combos)
        s["variants"] = [dict(compression=False, persist_activities=True, persist_network=True, copy_network=s["copy"])] + combos[:args["variants"]]
        out.append(s)
    # a topology rule that leaves a rotated network alone, with and without copying
    r = random.Random(args.get("fixed", 0))
    g = d_engine.ring([[(i - 1) % 5, i, (i + 1) % 5] for i in range(5)])
    g["system"] = [[i, nb[::-1]] for i, nb in g["system"]]
    v = dict(compression=False, persist_activities=True, persist_network=True)
    out.append({"fam": "rotated-copied", "seed": 1, "net": g, "ret": "bin", "initk": "bin", "order": "AF", "rule": True, "copy": False, "topo": "id",
                "pert": None, "memo": None, "past": [], "plan": [], "init": [[i, int(i == 2)] for i in range(5)], "initform": "list",
                "input": {"kind": "timesteps", "n": 4}, "variants": [dict(v, copy_network=False), dict(v, copy_network=True)]})
    return out


def snap(x):
    if isinstance(x, dict):
        return [[tok(k), tok(v)] for k, v in x.items()]
    return [tok(v) for v in x]


def strip(n):
    n = dict(n)
    n.pop("rot")
    return n


def execute(s):
    ev = []
    for fl in s["variants"]:
        r = Run(s, fl)
        r_init = {}
        o, traj = r.evolve()
        calls = []
        for e in r.ev[:2000]:
            e = dict(e)
            if e["e"] in ("rule", "topo"):
                e["tn"] = int(e["t"].split(":")[1])
            for k in ("net", "ret"):
                if e["e"] in ("topo", "input") and isinstance(e.get(k), dict):
                    e[k] = strip(e[k])
            calls.append(e)
        tj = []
        if o == "ok":
            o, tj = guard(lambda: traj_rec(traj))
            for x in tj or []:
                x["n"] = strip(x["n"]) if x["hasN"] else "none"
        init0 = {l: v for l, v in s["init"]}
        if s["initform"] != "dict":
            init0 = [v for _, v in s["init"]]
            if s["initform"] == "array":
                init0 = np.array(init0)
        past0 = [{l: v for l, v in p} if s["pastform"] == "dict" else [v for _, v in p] for p in s["past"]]
        ev.append({"flags": {"activities": fl["persist_activities"], "network": fl["persist_network"], "compression": fl["compression"], "copy": fl["copy_network"]},
                   "out": "ok" if o == "ok" else "exc", "calls": calls, "traj": tj or [], "init0": snap(init0), "init1": snap(r.init),
                   "past0": [snap(p) for p in past0], "past1": [snap(p) for p in (r.past or [])], "net0": strip(r.net0), "net1": strip(net_rec(r.network))})
    return {"fam": s["fam"], "name": s["fam"], "seed": s["seed"], "ev": ev}


def replay(s):
    """A run whose topology rule edits, keeps or replaces its network as the specification says."""
    f = s["fl"]

    def content(n):
        return [0] + [a["v"] for a in n.edge(0, 0)] if n.has_edge(0, 0) else [0]

    def make(vs):
        n = ntm.Network(1)
        for v in vs:
            n.add_edge(0, 0, v=v)
        return n
    seen = []

    def topo(ctx):
        n, t = ctx.network, ctx.timestep
        seen.append(content(n))
        m = s["moves"][t - 1]
        if m == "edit":
            n.add_edge(0, 0, v=t)
        elif m == "fresh":
            return make(content(n)[1:] + [100 + t - 1])
        elif m == "edit_fresh":
            n.add_edge(0, 0, v=t)
            return make([200 + t - 1])
        return n

    def rule(ctx):
        return ctx.current_activity + 1 + len(ctx.connection_states[0] if 0 in ctx.connection_states else [])
    net, init = make([]), {0: 0}
    o, tr = guard(lambda: ntm.evolve(net, initial_conditions=init, activity_rule=rule, topology_rule=topo, timesteps=len(s["moves"]) + 1,
                                     update_order=d_engine.ORD[s["order"]], copy_network=f["copy"], compression=f["comp"],
                                     persist_activities=f["actsKept"], persist_network=f["netKept"]))
    if o != "ok":
        return {"out": o, "why": str(tr), "seen": [], "acts": [], "nets": []}
    o, r = guard(lambda: {"acts": [-1 if x.activities is None else x.activities[0] for x in tr],
                          "nets": [[-1] if x.network is None else content(x.network) for x in tr]})
    if o != "ok":
        return {"out": o, "why": str(r), "seen": [], "acts": [], "nets": []}
    return dict(r, out="ok" if content(net) == [0] and init == {0: 0} else "caller's input modified", seen=seen)


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
