"""Drawable graphs, pages and layouts."""
from rec import *
import re, os, tempfile
import networkx as nx
import netomaton as ntm
from netomaton.vis import configuration_to_nx, get_html, lattice_pos, show_network


def generate(rng, tier, args):
    out = []
    for _ in range(args["n"]):
        m = rng.choice([1, 2, 3, 5, 12])
        cfg = [[rng.randint(0, m) for _ in range(rng.choice([1, 2, 2, 2, 3, 3, 4]))] for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))]
        if cfg and rng.random() < 0.4:
            cfg += [list(rng.choice(cfg)) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.4:
            x = rng.randint(0, m)
            cfg += [[x, x] for _ in range(rng.randint(1, 4))]
            rng.shuffle(cfg)
        out.append({"fam": "", "seed": rng.randrange(2 ** 31), "cfg": cfg, "tuples": rng.random() < 0.5, "nx": rng.choice([1, 2, 3, 5, 7]), "ny": rng.choice([1, 2, 4, 6]),
                    "other": rng.choice(["graph", "digraph", "multi", None])})
    return out


def graph(s):
    cfg = [tuple(r) for r in s["cfg"]] if s["tuples"] else [list(r) for r in s["cfg"]]
    return configuration_to_nx(cfg)


def val(x):
    x = x.strip().strip("\"'")
    return int(x) if re.fullmatch(r"-?\d+", x) else x


def parse(html):
    """The items of the page's two data sets."""
    sets = []
    for m in re.finditer(r"vis\.DataSet\(\s*\[(.*?)\]\s*\)", html, re.S):
        items = []
        for it in re.findall(r"\{(.*?)\}", m.group(1), re.S):
            d = {}
            for p in it.split(","):
                k, _, v = p.partition(":")
                d[k.strip().strip("\"'")] = val(v)
            items.append(d)
        sets.append(items)
    nodes, edges = sets[0], sets[1]
    return {"nodes": [d["id"] for d in nodes], "labels": [d["label"] for d in nodes], "edges": [[d["from"], d["to"]] for d in edges],
            "sizes": [int(round(float(d.get("selfReferenceSize", 0)) * 100)) for d in edges], "arrows": [d.get("arrows", "") for d in edges]}


def page(G):
    e = {"e": "page", "gn": [int(x) for x in G.nodes], "ge": [[int(x[0]), int(x[1])] for x in G.edges]}
    e.update(parse(get_html(G)))
    return e


def execute(s):
    ev = []

    def go():
        G = graph(s)
        ev.append({"e": "graph", "nodes": [int(x) for x in G.nodes], "edges": [[int(x[0]), int(x[1])] for x in G.edges()]})
        ev.append(page(G))
        if s["other"]:
            H = {"graph": nx.Graph, "digraph": nx.DiGraph, "multi": nx.MultiDiGraph}[s["other"]]()
            H.add_nodes_from(range(100, 100 + s["nx"]))
            H.add_edges_from(G.edges())
            ev.append(page(H))
        with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
            fn = os.path.join(d, "page.html")
            show_network(G, name=fn, is_notebook=True)
            w = parse(open(fn).read())
        p = parse(get_html(G))
        ev.append({"e": "written", "nodes": w["nodes"], "edges": w["edges"], "sizes": w["sizes"], "pnodes": p["nodes"], "pedges": p["edges"], "psizes": p["sizes"]})
        pos = lattice_pos(s["nx"], s["ny"])
        ev.append({"e": "layout", "nx": s["nx"], "ny": s["ny"], "keys": sorted(int(k) for k in pos), "pos": [[int(c) for c in pos[k]] for k in sorted(pos)]})
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return {"fam": s["fam"], "seed": s["seed"], "cfg": s["cfg"], "ev": ev}


def replay(b):
    def go():
        G = configuration_to_nx(b["cfg"])
        p = page(G)
        return {"nodes": sorted(int(x) for x in G.nodes), "edges": sorted([int(x[0]), int(x[1])] for x in G.edges()),
                "pnodes": sorted(p["nodes"]), "pedges": sorted(p["edges"])}
    o, v = guard(go)
    return dict(out=o, **(v if o == "ok" else {}))


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
