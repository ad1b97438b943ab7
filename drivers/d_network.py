"""Random and specification-generated edit histories on real Network objects."""
from rec import *
from netomaton import Network

POOLS = [[0, 1, 2, 3], ["A", "B", "C"], [0, "0", 1, "A"], [5, 3, 9, 7, 1], [-1, 0, 10, "x y"], [300, 1000, 2 ** 40, -300, "long name of a node"], [0.5, 2, -1.5, "0.5"], ["ab", "cd", "ba", "a"], [(0, 1), (1, 0), (0,), "(0, 1)"]]
ATTRS = ["w", "weight", "color", "k2", "w", "weight", "color", "k2", "key", "name", "a b", "n"]
VALS = [1, 0, -2, 0.5, "r", "", True, None, [1, 2], {"q": 1}, 0.1, 1 / 3, 1e300, -1e-300, 2 ** 40, 2 ** 62, -1, "caf\u00e9 \u2192", "1", False, float("inf"), 257, (1, "a"), (2,), {"q": 2}, {"z": [1]}, [3]]


def rattr(rng):
    return {rng.choice(ATTRS): rng.choice(VALS) for _ in range(rng.choice([0, 0, 1, 1, 2]))}


def generate(rng, tier, args):
    n = {"quick": 300, "thorough": 3000}[tier]
    out = []
    for s in range(n):
        pool = rng.choice(POOLS)
        n0 = rng.choice([0, 0, 0, 1, 3])
        ops = []
        m = rng.choice([6, 12, 25])
        dense = rng.random() < 0.5
        for _ in range(m):
            i, j = rng.choice(pool), rng.choice(pool)
            if rng.random() < 0.2:
                j = i
            k = rng.random()
            if k < (0.45 if dense else 0.3):
                ops.append(["add_edge", i, j, rattr(rng)])
            elif k < 0.55:
                ops.append(["add_edge_bidir", i, j, rattr(rng)])
            elif k < 0.65:
                ops.append(["add_node", i, None, rattr(rng)])
            elif k < 0.73:
                ops.append(["update_edge", i, j, rattr(rng)])
            elif k < 0.79:
                ops.append(["update_edge_at", i, j, rattr(rng), rng.random()])
            elif k < 0.89:
                ops.append(["remove_edge", i, j, {}])
            elif k < 0.95:
                ops.append([rng.choice(["remove_node", "delitem"]), i, None, {}])
            else:
                ops.append(["rotation", None, None, {}, rng.random()])
        out.append({"fam": "random", "seed": s, "n": n0, "ops": ops, "pool": pool + ["zz"]})
    return out


NAMES = {}      # for labels that stand for those of the specification


def name(x):
    return NAMES.get((type(x), x)) or tok(x)


def views(n, pool):
    nodes = list(n.nodes)
    v = {"nodes": [name(x) for x in nodes], "len": len(n),
         "na": {name(x): attr_rec({k: a for k, a in n[x].items() if k not in RESERVED}) for x in nodes},
         "inc": {name(x): [[name(s), [attr_rec(a) for a in es]] for s, es in n.in_edges(x).items()] for x in nodes},
         "edges": [[name(i), name(j), attr_rec(a)] for i, j, a in n.edges],
         "din": {name(x): n.in_degree(x) for x in nodes}, "dout": {name(x): n.out_degree(x) for x in nodes},
         "deg": {name(x): n.degree(x) for x in nodes},
         "pairs": [[name(i), name(j), bool(n.has_edge(i, j))] for i in pool for j in pool],
         "look": []}
    for i in pool:
        for j in pool:
            o, r = guard(lambda: [attr_rec(a) for a in n.edge(i, j)])
            v["look"].append([name(i), name(j), r if o == "ok" else []])
    return v


def apply(n, op):
    k, i, j, a = op[0], fresh(op[1]), fresh(op[2]), op[3]
    if k == "add_node":
        n.add_node(i, **a)
    elif k == "add_edge":
        n.add_edge(i, j, **a)
    elif k == "add_edge_bidir":
        n.add_edge_bidir(i, j, **a)
    elif k == "update_edge":
        n.update_edge(i, j, **a)
    elif k == "update_edge_at":
        n.update_edge(i, j, indices=op[5], **a)
    elif k == "remove_edge":
        n.remove_edge(i, j)
    elif k == "remove_node":
        n.remove_node(i)
    elif k == "delitem":
        del n[i]


EMPTY = {"nodes": [], "len": 0, "na": {}, "inc": {}, "edges": [], "din": {}, "dout": {}, "deg": {}, "pairs": [], "look": []}


def execute(s):
    ev = []
    holder = {}

    def construct():
        holder["n"] = Network(s["n"]) if s["n"] else Network()
        return holder["n"]
    o, n = guard(construct)
    ev.append({"op": "construct", "out": "ok" if o == "ok" else "exc", "v": views(n, s["pool"]) if o == "ok" else EMPTY})
    for op in s["ops"]:
        if o != "ok":
            break
        rng = random.Random(repr(op))
        if op[0] == "rotation":
            nodes = list(n.nodes)
            rot = []
            for x in nodes:
                if rng.random() < 0.8:
                    nb = list(n.in_edges(x)) + [x]
                    rng.shuffle(nb)
                    rot.append([x, nb])
            if rng.random() < 0.4 and rot:
                rng.choice(rot)[1].append(rng.choice(s["pool"]))
            if rng.random() < 0.2:
                rot.append([rng.choice(s["pool"]), []])
            if rng.random() < 0.1:
                rot = []
            rot = list(dict((x, nb) for x, nb in rot).items())

            def setrot():
                n.rotation_system = dict(rot)
            oo, _ = guard(setrot)
            got = n.rotation_system or {}
            ev.append({"op": "rotation", "out": "ok" if oo == "ok" else "exc", "rot": [[tok(x), [tok(y) for y in nb]] for x, nb in rot],
                       "got": [[tok(x), [tok(y) for y in nb]] for x, nb in got.items()], "v": views(n, s["pool"])})
            continue
        op = list(op)
        idx = []
        if op[0] == "update_edge_at":
            if n.has_edge(op[1], op[2]):
                m = len(n.edge(op[1], op[2]))
                idx = sorted(rng.sample(range(m), rng.randint(0, m)))
                if rng.random() < 0.15:     # an edge that isn't there
                    idx.insert(rng.choice([0, len(idx)]), m + rng.choice([0, 1, 7]))
            op = op[:4] + [None, idx]
        oo, _ = guard(lambda: apply(n, op))
        ovw, vw = guard(lambda: views(n, s["pool"]))
        if ovw != "ok":
            vw = dict(EMPTY, nodes=["<views failed: %s>" % ovw])
        ev.append({"op": op[0], "i": tok(op[1]), "j": tok(op[2]) if op[2] is not None else "", "a": attr_rec(op[3]), "idx": idx,
                   "out": "ok" if oo == "ok" else "exc", "v": vw})
    return {"fam": s["fam"], "seed": s["seed"], "n": s["n"], "ev": ev}


FAMILIES = [{}, {"i:0": "ab", "s:A": "cd", "i:7": "ba"}, {"i:0": 0.5, "s:A": -1.5, "i:7": 2}, {"i:0": (0, 1), "s:A": (1, 0), "i:7": (0,)},
            {"i:0": "a longer name", "s:A": "", "i:7": "another, longer name"}, {"i:0": 2 ** 40, "s:A": 300, "i:7": -300}, {"i:0": "0", "s:A": 0, "i:7": 0.25}]


def replay(s):
    """Runs histories emitted by the specification (with labels of several kinds) and returns the projection of the final state."""
    fam = FAMILIES[h(str(s["h"])) % len(FAMILIES)]
    NAMES.clear()
    NAMES.update({(type(x), x): t for t, x in fam.items()})
    of = lambda t: fam[t] if t in fam else untok(t)
    n = Network()
    ok = True
    for op in s["h"]:
        a = {k: untok(v) for k, v in (op["a"] or {}).items()} if isinstance(op["a"], dict) else {}
        o, _ = guard(lambda: apply(n, [op["op"], of(op["i"]), of(op["j"]) if op["j"] else None, a]))
        ok = o == "ok"
    o, v = guard(lambda: views(n, []))
    if o != "ok":
        return {"fail": o}
    return {"nodes": v["nodes"], "na": v["na"], "inc": v["inc"], "din": v["din"], "dout": v["dout"], "ok": ok}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
