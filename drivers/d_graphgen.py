"""Calls of the conversions and graph generators."""
from rec import *
import networkx as nx
from netomaton import Network
import netomaton.topology as topology
from netomaton.topology import adjacency
import d_network

LABELS = [[0, 1, 2, 3, 4], ["A", "B", "C", "D"], [3, 0, 7, 2, 5], ["x", 1, "1", 0], [9], [(0, 0), (0, 1), (1, 0), "(0, 0)"], [0.5, -1.5, 2], [300, -7, 2 ** 40, "long label"]]


def generate(rng, tier, args):
    p = args["prop"]
    big = tier == "thorough"
    cases = []
    if p == "C03":
        import itertools
        for vals, n in (([0, 1], 1), ([0, 1, -2], 2), ([0, 1], 3)):      # all small matrices
            for v in itertools.product(vals, repeat=n * n):
                cases.append({"c": "from_matrix", "m": [list(v[i * n:(i + 1) * n]) for i in range(n)], "np": False})
        for k in range(300 if not big else 4000):
            n = rng.choice([1, 2, 3, 4, 5])
            dens = rng.choice([0, 0.2, 0.5, 1])
            vals = rng.choice([[1], [1, 2, 3], [-1, 0.5, 2], [1.0, -2.25, 0.75], [1, -1], [300, 1000.25]])
            zero = rng.choice([0, 0.0])
            m = [[rng.choice(vals) if rng.random() < dens else zero for _ in range(n)] for _ in range(n)]
            if rng.random() < 0.3:
                m = [r if rng.random() < 0.6 else [zero] * n for r in m]
            mm = m
            if k % 4 == 0:
                mm = [[rng.choice([0.1, 1 / 3, 1e-9, -1e-9, 1e-12, -1e-12, -1e-16, 5e-324, -5e-324, 2 ** 40, -2 ** 40, -1e300]) if v else v for v in r] for r in m]
            cases.append({"c": "from_matrix", "m": mm, "np": rng.random() < 0.2})
            cases.append({"c": "matrix_roundtrip", "m": m, "unit": rng.choice([1, 1, 2.0 ** -40, 2.0 ** -200, 2.0 ** 60])})
            labels = list(rng.choice(LABELS))
            rng.shuffle(labels)
            es = []
            pw = rng.choice([0.7, 0.7, 1])
            for i in labels:
                for j in labels:
                    while rng.random() < dens * 0.7 and len(es) < 12:
                        a = {}
                        if rng.random() < pw:
                            a[rng.choice(["weight", "weight", "w"] if pw < 1 else ["weight"])] = rng.choice([1, 2, -3, 0.5, 0, 2.25])
                        if rng.random() < 0.3:
                            a[rng.choice(["color", "color", "key", "label", "name", "a b", "n", "data"])] = rng.choice(["r", None, [1, 2], 0, 1, {"q": 1}, (1, 2), "", True])
                        es.append([i, j, a])
            rng.shuffle(es)
            order = labels[:]
            rng.shuffle(order)
            na = [[l, {rng.choice(["size", "size", "key", "label", "name", "a b", "n", "weight", "activity", "input"]): rng.choice([1, "s", None, 0, [1], {"q": 2}, (1, 2), ""])} if rng.random() < 0.4 else {}] for l in labels]
            base = {"labels": labels, "edges": es, "na": na}
            cases.append(dict(base, c="to_matrix", unit=rng.choice([1, 1, 2.0 ** -40, 2.0 ** -200, 2.0 ** 60]), order=rng.choice([None, order, order]), sum=rng.random() < 0.6, weight=rng.choice(["weight", "weight", "w", None])))
            cases.append(dict(base, c="networkx"))
            cases.append(dict(base, c="from_networkx", di=rng.random() < 0.5))
    elif p == "C04":
        for n in range(3, 20 if not big else 41):
            for r in range(1, (n - 1) // 2 + 1):
                if r > (4 if not big else 15):
                    continue
                cases.append({"c": "ca1", "n": n, "r": r, "ordered": (n + r) % 4 != 0})
        # neighbourhoods that reach around the ring or the torus, even more than once
        for n, r in ((3, 2), (3, 3), (4, 2), (4, 4), (6, 3), (6, 5), (7, 7)):
            cases.append({"c": "ca1", "n": n, "r": r, "ordered": False})
        for rows, cols, r in ((3, 3, 2), (3, 5, 2), (5, 3, 4), (3, 4, 4), (4, 3, 5), (3, 6, 7), (9, 3, 4), (2, 5, 1), (1, 9, 2), (4, 4, 9)):
            for ty in ("Moore", "von Neumann"):
                cases.append({"c": "ca2", "rows": rows, "cols": cols, "r": r, "type": ty, "ordered": (rows + r) % 2 == 0})
        for n, r in ((25, 2), (130, 1), (257, 1)):
            cases.append({"c": "ca1", "n": n, "r": r, "ordered": True})
        for what in ([{"n": n, "r": r} for n in (0, 1, 2) for r in (1, 0)] + [{"n": n, "boundary": b} for n in (3, 8) for b in ("fixed", "", None)] +
                     [{"rows": a, "cols": b} for a in (1, 2, 4, 8) for b in (1, 2, 4, 8) if a * b < 9] +
                     [{"rows": 3, "cols": k, "boundary": "reflecting"} for k in (3, 4)] + [{"rows": k, "cols": 4, "neighbourhood": t} for k in (3, 6) for t in ("moore", "hexagonal", "", None)]):
            cases.append({"c": "refuse", "what": what})
        hi = 8 if not big else 12
        for rows in range(3, hi):
            for cols in range(3, hi):
                for r in range(1, (min(rows, cols) - 1) // 2 + 1):
                    for ty in ("Moore", "von Neumann", "Hex"):
                        if ty == "Hex" and (r != 1 or rows % 2):
                            continue
                        cases.append({"c": "ca2", "rows": rows, "cols": cols, "r": r, "type": ty, "ordered": (rows + cols + r) % 5 != 0})
        for rows, cols in ([(4, 9), (9, 4), (12, 11)] if not big else [(4, 13), (12, 3), (3, 17), (13, 6)]):
            for ty in ("Moore", "von Neumann", "Hex"):
                if ty != "Hex" or rows % 2 == 0:
                    cases.append({"c": "ca2", "rows": rows, "cols": cols, "r": 1, "type": ty, "ordered": True})
    elif p == "C05":
        dims = [(a,) for a in range(1, 6)] + [(a, b) for a in range(1, 5) for b in range(1, 5)] + \
               [(a, b, c) for a in range(1, 4) for b in range(1, 4) for c in range(1, 4)] + [(2, 2, 2, 2), (3, 1, 2, 2), (6, 5), (1, 6, 6), (12, 11)]
        if big:
            dims += [(a, b, c) for a in range(1, 6) for b in range(1, 5) for c in range(1, 5)] + [(8, 7), (3, 3, 3, 3), (10,)]
        for d in dims:
            for per in (False, True):
                cases.append({"c": "lattice", "dim": list(d), "periodic": per, "loops": rng.random() < 0.5, "first": rng.choice([0, 0, 1, 10, -3]),
                              "defaults": rng.random() < 0.1})
        for n in list(range(1, 8 if not big else 14)) + [17]:
            cases.append({"c": "complete", "n": n})
        for k in range(40 if not big else 300):
            labels = rng.choice([[0, 1, 2, 3, 4, 5], ["A", "B", "C", "D", "E"], [4, 2, 9, "q", "r"], ["", "0", 0, 7], [(0, 0), (0, 1), (1, 0), (1, 1)], [0.5, 1.5, -2, 2 ** 40], ["node %d" % x for x in range(6)]])[:]
            rng.shuffle(labels)
            cases.append({"c": "disconnected", "arg": rng.choice([rng.randrange(0, 7), labels[:rng.randrange(len(labels) + 1)]])})
            a = rng.randrange(1, len(labels))
            s1, s2 = labels[:a], labels[a:]
            at = None
            if rng.random() < 0.7:
                at = [[{"weight": rng.choice([0.5, 1, -2])} if rng.random() < 0.8 else ({"c": "x", "w": 3} if rng.random() < 0.5 else {}) for _ in s2] for _ in s1]
            cases.append({"c": "bipartite", "s1": s1, "s2": s2, "attrs": at, "extra": rng.random() < 0.5})
        for k in range(60 if not big else 600):
            n = rng.randrange(3, 16 if not big else 30)
            kk = 2 * rng.randint(1, (n - 1) // 2)
            cases.append({"c": "small_world", "n": n, "k": kk, "p": rng.choice([0, 0, 0.1, 0.5, 1]), "seed": rng.choice([0, 0, 1, rng.randrange(10 ** 6), 2 ** 32 - 1])})
    for c in cases:
        c["prop"] = p
    size = 20
    return [{"fam": p, "seed": i, "cases": cases[i:i + size]} for i in range(0, len(cases), size)]


def mk(c):
    n = Network()
    for l, a in c["na"]:
        n.add_node(l, **a)
    for i, j, a in c["edges"]:
        n.add_edge(i, j, **a)
    return n


def q4(v):
    x = float(v) * 4
    return int(x) if x == int(x) else -99999999


def gx(G):
    return [[tok(n), attr_rec(d)] for n, d in G.nodes(data=True)], [[tok(i), tok(j), attr_rec(d)] for i, j, d in G.edges(data=True)]


def run(c):
    k = c["c"]
    e = {"c": k, "prop": c["prop"]}
    rng = random.Random(repr(c))
    if k == "from_matrix":
        m = np.array(c["m"]) if c["np"] else c["m"]
        e["m"] = [[tok(v) for v in r] for r in m]
        e["nz"] = [[bool(v != 0) for v in r] for r in c["m"]]
        e["net"] = net_rec(topology.from_adjacency_matrix(m))
    elif k == "matrix_roundtrip":
        e["m"] = [[q4(v) for v in r] for r in c["m"]]
        n, u = len(c["m"]), c["unit"]                   # a power of two, so that scaling is exact
        e["got"] = [[q4(v / u) for v in r] for r in topology.from_adjacency_matrix([[v * u for v in r] for r in c["m"]]).to_adjacency_matrix(nodelist=list(range(n)))]
    elif k == "to_matrix":
        w = c["weight"] or "weight"
        u = c["unit"] if all(w in a for _, _, a in c["edges"]) else 1      # a power of two, so that scaling is exact; a missing weight counts 1
        n = mk(dict(c, edges=[[i, j, {q: v * u if q == w else v for q, v in a.items()}] for i, j, a in c["edges"]]))
        order = c["order"] or list(n.nodes)
        e["order"] = [tok(x) for x in order]
        kw = {}
        if c["order"]:
            kw["nodelist"] = c["order"]
        if c["weight"]:
            kw["weight"] = c["weight"]
        if not c["sum"]:
            kw["sum_multiedges"] = False
        e["sum"] = c["sum"]
        e["edges"] = [[tok(i), tok(j), w in a, q4(a.get(w, 0))] for i, j, a in c["edges"]]
        e["got"] = [[q4(v / u) for v in r] for r in n.to_adjacency_matrix(**kw)]
    elif k == "networkx":
        n = mk(c)
        e["net"] = net_rec(n)
        G = n.to_networkx()
        assert isinstance(G, nx.MultiDiGraph)
        e["gn"], e["ge"] = gx(G)
        e["back"] = net_rec(Network.from_networkx(G))
        e["net"] = net_rec(n)
    elif k == "from_networkx":
        G = nx.DiGraph() if c["di"] else nx.MultiDiGraph()
        for l, a in c["na"]:
            G.add_node(l, **a)
        for i, j, a in c["edges"]:
            G.add_edges_from([(i, j, a)])
        e["gn"], e["ge"] = gx(G)
        e["back"] = net_rec(Network.from_networkx(G))
    elif k == "refuse":
        w = c["what"]
        made = []
        for m in [adjacency] if "boundary" in w else [adjacency, topology]:
            f = m.cellular_automaton if "n" in w else m.cellular_automaton2d
            o, _ = guard(lambda: f(**w))
            made.append(o == "ok")
        e["made"] = made
        e["what"] = str(w)
    elif k == "ca1":
        e.update(n=c["n"], r=c["r"], ordered=c["ordered"])
        e["net"] = net_rec(topology.cellular_automaton(**given(c, {"r": 1, "ordered": True, "n": 200}, n=c["n"], r=c["r"], ordered=c["ordered"])))
        e["adj"] = [[int(v) if v == int(v) else -1 for v in r] for r in adjacency.cellular_automaton(c["n"], **given(c, {"r": 1}, r=c["r"]))]
    elif k == "ca2":
        e.update(rows=c["rows"], cols=c["cols"], r=c["r"], type=c["type"], ordered=c["ordered"])
        e["net"] = net_rec(topology.cellular_automaton2d(c["rows"], c["cols"], **given(c, {"r": 1, "neighbourhood": "Moore", "ordered": True}, r=c["r"], neighbourhood=c["type"], ordered=c["ordered"])))
        e["adj"] = [[int(v) if v == int(v) else -1 for v in r] for r in adjacency.cellular_automaton2d(c["rows"], c["cols"], **given(c, {"r": 1, "neighbourhood": "Moore"}, r=c["r"], neighbourhood=c["type"]))]
    elif k == "lattice":
        e.update(dim=c["dim"], periodic=c["periodic"], loops=c["loops"], first=c["first"])
        if c["defaults"]:
            e.update(periodic=False, loops=False, first=0)
            e["net"] = net_rec(topology.lattice(tuple(c["dim"])))
        else:
            e["net"] = net_rec(topology.lattice(dim=tuple(c["dim"]), **given(c, {"periodic": False, "self_loops": False, "first_label": 0}, periodic=c["periodic"], self_loops=c["loops"], first_label=c["first"])))
    elif k == "complete":
        e["n"] = c["n"]
        e["net"] = net_rec(topology.complete(c["n"]))
    elif k == "disconnected":
        a = c["arg"]
        e["labels"] = [tok(x) for x in (range(a) if isinstance(a, int) else a)]
        e["net"] = net_rec(topology.disconnected(a))
    elif k == "bipartite":
        seq = rng.choice([list, list, tuple, lambda x: dict.fromkeys(x), lambda x: dict.fromkeys(x).keys()])
        e["s1"], e["s2"] = [tok(x) for x in c["s1"]], [tok(x) for x in c["s2"]]
        at = c["attrs"]
        e["attrs"] = [[attr_rec(at[i][j]) if at else {} for j in range(len(c["s2"]))] for i in range(len(c["s1"]))]
        if at:
            d = {x: {y: dict(at[i][j]) for j, y in enumerate(c["s2"])} for i, x in enumerate(c["s1"])}
            if c["extra"]:       # a symmetric or larger table: entries for other pairs are not edges
                for j, y in enumerate(c["s2"]):
                    d[y] = {x: {"weight": 7, "back": 1} for x in c["s1"]}
                    d[y][y] = {"weight": 5}
                d["other"] = {c["s2"][0]: {"weight": 9}}
            n = topology.bipartite(seq(c["s1"]), seq(c["s2"]), d)
        else:
            n = topology.bipartite(seq(c["s1"]), seq(c["s2"]))
        e["net"] = net_rec(n)
    elif k == "small_world":
        e.update(n=c["n"], k=c["k"], p0=c["p"] == 0)
        e["net"] = net_rec(topology.watts_strogatz_graph(c["n"], c["k"], c["p"], seed=c["seed"]))
        np.random.random(3)
        random.random()
        e["again"] = net_rec(topology.watts_strogatz_graph(c["n"], c["k"], c["p"], seed=c["seed"]))
    return e


def execute(s):
    ev = []
    for c in s["cases"]:
        o, e = guard(lambda: run(c))
        if o == "ok":
            e["out"] = "ok"
        else:
            e = {"c": c["c"], "prop": c["prop"], "out": o, "why": str(e), "case": {k: v for k, v in c.items() if k in ("n", "r", "rows", "cols", "dim", "k")}}
        ev.append(e)
    return {"fam": s["fam"], "seed": s["seed"], "ev": ev}


def replay(s):
    """Builds what the specification names."""
    def go():
        c = s.get("c")
        if c is None:                       # a weighted multigraph: its matrix in some node order
            n = Network()
            labels = {x: untok(x) for x in s["order"]}
            for x in sorted(labels):
                n.add_node(labels[x])
            for i, j, has, w in s["edges"]:
                n.add_edge(labels[i], labels[j], **({"weight": w / 4} if has else {}))
            order = [labels[x] for x in s["order"]]
            m = n.to_adjacency_matrix(nodelist=order) if s["sum"] else n.to_adjacency_matrix(nodelist=order, sum_multiedges=False)
            b = Network.from_networkx(n.to_networkx())
            return {"matrix": [[q4(v) for v in r] for r in m], "edges": sorted([tok(i), tok(j), "weight" in a, q4(a.get("weight", 0))] for i, j, a in b.edges)}
        if c["c"] in ("ca1", "ca2"):
            if c["c"] == "ca1":
                n = topology.cellular_automaton(n=c["n"], r=c["r"])
            else:
                n = topology.cellular_automaton2d(c["rows"], c["cols"], r=c["r"], neighbourhood=c["type"])
            rs = n.rotation_system
            cells = range(len(n))
            return {"sets": [sorted(n.in_edges(i)) for i in cells], "hoods": [list(rs[i]) if c["c"] == "ca1" else [] for i in cells],
                    "centres": [rs[i][len(rs[i]) // 2] for i in cells], "rots": [sorted(rs[i]) for i in cells]}
        if c["c"] == "lattice":
            n = topology.lattice(dim=tuple(c["dim"]), **given(c, {"periodic": False, "self_loops": False, "first_label": 0}, periodic=c["periodic"], self_loops=c["loops"], first_label=c["first"]))
        elif c["c"] == "complete":
            n = topology.complete(c["n"])
        else:
            n = topology.watts_strogatz_graph(c["n"], c["k"], 0)
        return {"pairs": sorted([tok(i), tok(j)] for i, j, _ in n.edges), "n": len(n)}
    o, r = guard(go)
    return dict(r, out="ok") if o == "ok" else {"out": "%s %s" % (o, r)}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
