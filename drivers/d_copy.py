"""Edit histories of a network and of a copy of it."""
from rec import *
import d_network
from d_network import POOLS, views, apply, EMPTY
from netomaton import Network
from netomaton.state import State

NESTED = [[1, 2], {"q": 1}, [[0], "z"], {"a": [1, {"b": 2}]}, [], {}, (1, "a"), (), ([1], (2,)), {"t": (0, 1)}]


def rattr(rng):
    d = d_network.rattr(rng)
    if rng.random() < 0.35:
        d["nest"] = rng.choice(NESTED)
    return d


def scalars(rng):
    """Values that two edges given the same keyword arguments don't share."""
    return {k: v for k, v in d_network.rattr(rng).items() if not isinstance(v, (list, dict))}


def rop(rng, pool):
    i, j = rng.choice(pool), rng.choice(pool)
    k = rng.random()
    if k < 0.4:
        return ["add_edge", i, j, rattr(rng)]
    if k < 0.5:
        return ["add_edge_bidir", i, j, scalars(rng)]
    if k < 0.6:
        return ["add_node", i, None, rattr(rng)]
    if k < 0.68:
        return ["update_edge", i, j, scalars(rng)]
    if k < 0.8:
        return ["remove_edge", i, j, {}]
    if k < 0.86:
        return ["remove_node", i, None, {}]
    if k < 0.95:
        return ["set_edge", i, j, {}, rng.choice(["scalar", "nested"])]
    return ["set_node", i, None, {}, rng.choice(["scalar", "nested"])]


def generate(rng, tier, args):
    out = []
    for s in range(args["n"]):
        pool = rng.choice([p for p in POOLS])
        ops = [["orig"] + rop(rng, pool) for _ in range(rng.choice([0, 3, 6, 10]))]
        how = rng.choice(["copy", "compress", "state", "copy"])
        ops.append(["copy", how, rng.random() < 0.3])
        for _ in range(rng.choice([2, 6, 10])):
            ops.append([rng.choice(["orig", "copy"])] + rop(rng, pool))
        out.append({"fam": how, "seed": s, "ops": ops, "pool": pool + ["zz"]})
    return out


def safe_views(n, pool):
    o, v = guard(lambda: views(n, pool))
    return v if o == "ok" else dict(EMPTY, nodes=["<views failed %s>" % o])


def mutate(v, rng):
    """In-place change of a nested value."""
    if isinstance(v, list):
        if v and isinstance(v[-1], dict) and rng.random() < 0.5:
            mutate(v[-1], rng)
        else:
            v.append(rng.randrange(9))
    elif isinstance(v, dict):
        k = sorted(v)[0] if v else None
        if k and isinstance(v[k], (list, dict)):
            mutate(v[k], rng)
        else:
            v["m"] = rng.randrange(9)


def readded(m, n, x):
    import copy as cp
    a = {k: v for k, v in cp.deepcopy(n[x]).items() if k not in RESERVED}
    m.remove_node(x)
    m.add_node(x, **a)
    return bool(n == m) and bool(m == n)


def execute(s):
    ev = []
    n, m = Network(), None
    for op in s["ops"]:
        if op[0] == "copy":
            if op[2]:
                nodes = list(n.nodes)
                if nodes:
                    n.rotation_system = {x: list(n.in_edges(x)) + [x] for x in nodes}

            def mk():
                if op[1] == "copy":
                    return n.copy()
                if op[1] == "compress":
                    return Network.decompress(n.compress())
                return State(activities={}, network=n, compression=True).network
            o, m = guard(mk)
            if o != "ok":
                ev.append({"op": "copy", "side": "", "out": "exc", "vo": safe_views(n, s["pool"]), "vc": EMPTY, "copied": False,
                           "eq": True, "same": False, "roto": [], "rotc": []})
                break
            o2, eq = guard(lambda: bool(n == m))

            again = True        # the order in which nodes without edges were added makes no difference
            alone = [x for x in n.nodes if n.degree(x) == 0]
            if o2 == "ok" and alone and s["seed"] % 3 == 0:
                o2, again = guard(lambda: readded(mk(), n, alone[0]))

            def rr(x):
                return [[tok(k), [tok(y) for y in v]] for k, v in (x.rotation_system or {}).items()]
            ev.append({"op": "copy", "side": "", "out": "ok", "vo": safe_views(n, s["pool"]), "vc": safe_views(m, s["pool"]),
                       "copied": True, "eq": bool(eq and again) if o2 == "ok" else False, "same": n is m, "roto": rr(n), "rotc": rr(m)})
            continue
        x = n if op[0] == "orig" else m
        k, i, j, a = op[1:5]
        e = {"op": k, "side": op[0], "i": tok(i), "j": tok(j) if j is not None else "", "a": attr_rec(a), "k": 0, "idx": []}
        if k in ("set_edge", "set_node"):
            r = random.Random(repr(op) + str(s["seed"]))
            e["a"] = {}
            o = "ok"

            def setit():
                if k == "set_edge":
                    if not x.has_edge(i, j):
                        return
                    es = x.edge(i, j)
                    q = r.randrange(len(es))
                    e["k"] = q + 1
                    d = es[q]
                else:
                    if i not in x.nodes:
                        return
                    d = x[i]
                keys = [y for y in d if y not in RESERVED and isinstance(d[y], (list, dict))]
                if op[5] == "nested" and keys:
                    y = r.choice(keys)
                    mutate(d[y], r)
                else:
                    y = r.choice(["w", "k2", "fresh"])
                    d[y] = r.randrange(100)
                e["a"] = {y: tok(d[y])}
            o, _ = guard(setit)
            e["out"] = "ok" if o == "ok" else "exc"
        else:
            import copy as cp
            o, _ = guard(lambda: apply(x, [k, i, j, cp.deepcopy(a)]))
            e["out"] = "ok"       # whether the edit is accepted is C01's business
        e["vo"] = safe_views(n, s["pool"])
        e["vc"] = safe_views(m, s["pool"]) if m is not None else EMPTY
        e["copied"] = m is not None
        if m is not None:
            o3, q = guard(lambda: bool(n == m) or bool(m == n))
            e["eq"] = q if o3 == "ok" else True
        ev.append(e)
    return {"fam": s["fam"], "seed": s["seed"], "ev": ev}


def proj(n):
    v = safe_views(n, [])
    return {k: v[k] for k in ("nodes", "na", "inc", "din", "dout")}


def replay(s):
    """Runs a history of the specification on a network and its copy."""
    n, m = Network(), None

    def go():
        nonlocal m
        for op in s["h"]:
            a = {k: untok(v) for k, v in (op["a"] or {}).items()}
            i, j = untok(op["i"]) if op["i"] else None, untok(op["j"]) if op["j"] else None
            x = n if op["side"] == "orig" else m
            if op["op"] == "copy":
                how = ["copy", "compress", "state"][h(s["h"]) % 3]
                m = n.copy() if how == "copy" else Network.decompress(n.compress()) if how == "compress" else \
                    State(activities={}, network=n, compression=True).network
            elif op["op"] == "set_edge":
                x.edge(i, j)[0].update(a)
            elif op["op"] == "set_node":
                x[i].update(a)
            else:
                apply(x, [op["op"], i, j, a])
        return m
    o, m2 = guard(go)
    if o != "ok":
        return {"out": o, "o": proj(n), "c": {}}
    return {"out": "ok", "o": proj(n), "c": proj(m)}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
