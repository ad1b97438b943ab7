"""Plots and animations: what the figure shows (read from matplotlib's artists) or, for network drawings, the graph handed to the renderer."""
from rec import *
import math
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.animation as animation
import networkx as nx

ANIS, DRAWN, SAVED, TIGHT = [], [], [], []
_FA = animation.FuncAnimation


class FuncAnimation(_FA):
    """The real animation, noted when it is made; the driver asks it for its frames."""
    def __init__(self, *a, **k):
        _FA.__init__(self, *a, **k)
        self._draw_was_started = True
        self.interval = k.get("interval")
        ANIS.append(self)

    def save(self, filename, writer=None, fps=None, dpi=None, *a, **k):
        # (no film is made: the driver only notes what would be)
        SAVED.append([str(filename), tok(dpi)])


animation.FuncAnimation = FuncAnimation


def note_graph(layout=None):
    # (the installed NetworkX cannot draw on the installed Matplotlib, so the renderer is only told what to draw)
    def draw(G, pos=None, **k):
        DRAWN.append((G, pos if pos is not None else layout(G), k))
    return draw


import networkx.drawing.nx_pylab as nxp
for _name, _lay in (("draw", nx.spring_layout), ("draw_networkx", nx.spring_layout), ("draw_shell", nx.shell_layout), ("draw_spring", nx.spring_layout),
                    ("draw_planar", nx.planar_layout), ("draw_kamada_kawai", nx.kamada_kawai_layout), ("draw_circular", nx.circular_layout)):
    for _m in (nx, nx.drawing, nxp):
        setattr(_m, _name, note_graph(_lay))

import netomaton as ntm
from netomaton import State, Network

STEP = "timestep: "
_TL = matplotlib.figure.Figure.tight_layout


def tight(self, *a, **k):
    TIGHT.append({x: tok(y) for x, y in k.items()})
    return _TL(self, *a, **k)


matplotlib.figure.Figure.tight_layout = tight


def film(c):
    return {k: c[k] for k in ("save", "interval", "dpi") if k in c}


def made():
    return {"saved": list(SAVED), "interval": tok(ANIS[0].interval) if ANIS else ""}


def num(x):
    x = float(x)
    return int(x) if x == int(x) else repr(x)


def scaled(s, c):
    """A series in its unit, a power of two (so that nothing is rounded)."""
    return [v * 2.0 ** c["unit"] for v in s] if c.get("unit") else list(s)


def unscaled(x, c):
    return num(float(x) / 2.0 ** c.get("unit", 0))


def mat(a):
    return [[num(x) for x in r] for r in np.asarray(a).tolist()]


def traj_of(c):
    """The input: a trajectory whose states list their nodes in the given order, or a plain table."""
    if c["traj"]:
        out = []
        for row in c["rows"]:
            order = c["order"]
            n = Network()
            for k in order:
                n.add_node(c["labels"][k])
            out.append(State(activities={c["labels"][k]: row[k] for k in order}, network=n))
        return out
    return [list(r) for r in c["rows"]]


def opts(c, names):
    o = {}
    for n in names:
        if n in c and c[n] != [] and (n, c[n]) != ("colormap", ""):
            o[n] = tuple(c[n]) if n == "shape" else c[n][0] if n in ("slice", "vmin", "vmax") else c[n]
    return o


def text(c, names):
    return {n: tuple(c[n]) if n in ("xlim", "ylim") else c[n] for n in names if c.get(n)}


def frames_of(ani, k, look):
    seq = ani.new_frame_seq()
    out = []
    for _ in range(k):
        try:
            f = next(seq)
        except StopIteration:
            break
        ani._func(f)
        out.append(look())
    return out


def idx(rgba, cmap):
    lut = np.asarray([cmap(i) for i in range(256)])
    d = np.abs(lut - np.asarray(rgba)).sum(axis=1)
    return int(np.argmin(d)) if d.min() < 1e-6 else -1


def corners(hexes):
    """The corners of the hexagons relative to their centres (all alike, hopefully)."""
    return sorted(set(tuple(centre(*(np.asarray(v) - np.asarray(c)))) for c, vs in hexes for v in vs))


def centre(x, y):
    return [int(round(1000 * x / (math.sqrt(3) / 2))), int(round(1000 * y / 1.5))]


def net_of(c, ev):
    n = Network()
    for x in ev["nodes"]:
        n.add_node(untok(x))
    for a, b in ev["edges"]:
        n.add_edge(untok(a), untok(b))
    return n


def near(p, q):
    return all(abs(float(a) - float(b)) < 1e-9 for a, b in zip(p, q))


def gdesc(G, pos, k):
    d = {"nodes": [tok(x) for x in G.nodes], "edges": [[tok(e[0]), tok(e[1])] for e in G.edges()]}
    d["directed"] = G.is_directed()
    d["placed"] = all(x in pos for x in G.nodes)
    d["pos"] = [[num(v) for v in pos[x]] for x in G.nodes]
    d["as"] = [n for n, f in (("shell", nx.shell_layout), ("planar", nx.planar_layout if len(G) < 5 else None)) if f and d["placed"] and all(near(pos[x], q) for x, q in f(G).items())]
    d["look"] = [tok(k.get("with_labels", True)), tok(k.get("node_color", "#1f78b4")), tok(k.get("node_size", 300)), tok(k.get("arrows", True))]
    return d


def observe(c):
    plt.close("all")
    del ANIS[:], DRAWN[:], SAVED[:], TIGHT[:]
    kind = c["kind"]
    if kind in ("grid", "activities"):
        o = opts(c, ["shape", "slice", "title", "vmin", "vmax", "node_annotations", "show_grid", "colormap"])
        if kind == "grid":
            ntm.plot_grid([list(r) for r in c["rows"]], **o)
        else:
            ntm.plot_activities(traj_of(c), **o)
        ax = plt.gcf().axes[0]
        im = ax.images[0]
        return {"img": mat(im.get_array()), "title": ax.get_title(), "n": len(ax.images),
                "clim": [num(x) for x in im.get_clim()], "cmap": im.get_cmap().name,
                "cuts": [[num(2 * v) for v in ax.get_xticks()], [num(2 * v) for v in ax.get_yticks()]] if c["show_grid"] else [],
                "texts": [[num(t.get_position()[0]), num(t.get_position()[1]), t.get_text()] for t in ax.texts]}
    if kind == "multiple":
        ntm.plot_grid_multiple([[list(r) for r in t] for t in c["tables"]], **opts(c, ["shape", "slice", "titles", "vmin", "vmax", "colormap"]))
        figs = plt.get_fignums()
        ims = [plt.figure(f).axes[0].images[0] for f in figs]
        return {"clims": [[num(x) for x in im.get_clim()] for im in ims], "cmaps": [im.get_cmap().name for im in ims],
                "n": len(figs), "imgs": [mat(plt.figure(f).axes[0].images[0].get_array()) for f in figs],
                "shown": [plt.figure(f).axes[0].get_title() for f in figs]}
    if kind == "animate":
        arg = [[list(r) for r in m] for m in c["cube"]] if c["cube"] else traj_of(c)
        ntm.animate_activities(arg, **film(c), **opts(c, ["shape", "title", "with_timestep", "show_grid", "show_margin", "blit", "vmin", "vmax", "colormap"]))
        ax = plt.gcf().axes[0]
        im = ax.images[0]
        first = mat(im.get_array())
        fr = frames_of(ANIS[0], c["calls"], lambda: (mat(im.get_array()), ax.get_title()))
        return {"first": first, "frames": [f[0] for f in fr], "shown": [f[1] for f in fr], "clim": [num(x) for x in im.get_clim()], "cmap": im.get_cmap().name,
                "cuts": [[num(2 * v) for v in ax.get_xticks()], [num(2 * v) for v in ax.get_yticks()]] if c["show_grid"] else [], **made()}
    if kind == "animate1d":
        ntm.animate_plot1D(list(c["x"]), traj_of(c), **film(c))
        ln = plt.gcf().axes[0].lines[0]
        look = lambda: [[num(v) for v in ln.get_xdata()], [num(v) for v in ln.get_ydata()]]
        first = look()
        return {"first": first, "frames": frames_of(ANIS[0], c["calls"], look), **made()}
    if kind == "plot1d":
        o = opts(c, ["label", "color", "xlabel", "ylabel", "twinx", "title"])
        for k in ("color", "ylabel"):
            if len(c[k]) == 1 and k in o and len(c["y"]) > 1:
                o[k] = c[k][0]      # one for all
        if c["xlim"]:
            o["xlim"] = tuple(c["xlim"])
        if c["ylim"]:
            o["ylim"] = tuple(c["ylim"][0]) if len(c["ylim"]) == 1 else [tuple(v) for v in c["ylim"]]
        if c["legend"]:
            o["legend"] = {"title": c["legend"][0]} if len(c["legend"]) == 1 else [{"title": v} for v in c["legend"]]
        y = [scaled(s, c) for s in c["y"]]
        if c["arrays"]:
            y = [np.array(s) for s in y]
        if c["tight"]:
            o["tight_layout"] = dict(c["tight"])
        ntm.plot1D(list(c["x"]), y[0] if c["single"] else y, **o)
        axes = plt.gcf().axes
        return {"axes": [[[[num(v) for v in l.get_xdata()], [unscaled(v, c) for v in l.get_ydata()], l.get_label() if c["label"] else "", l.get_color() if c["color"] else ""]
                          for l in ax.lines] for ax in axes],
                "tight": list(TIGHT), "entries": [[x.get_text() for x in ax.get_legend().get_texts()] if ax.get_legend() else [] for ax in axes],
                "legends": [ax.get_legend().get_title().get_text() if ax.get_legend() else "" for ax in axes],
                "title": [ax.get_title() for ax in axes], "labels": [[ax.get_xlabel(), ax.get_ylabel()] for ax in axes], "xl": [[num(v) for v in ax.get_xlim()] if c["xlim"] else [] for ax in axes], "yl": [[num(v) for v in ax.get_ylim()] if c["ylim"] else [] for ax in axes]}
    if kind in ("poincare", "bifurcation"):
        ser = [scaled(s, c) for s in c["series"]]
        if c["arrays"]:
            ser = [np.array(s) for s in ser]
        if kind == "poincare":
            ntm.poincare_plot(ser[0] if c["single"] else ser, c["last"], **text(c, ["xlabel", "ylabel", "title", "xlim", "ylim"]))
        else:
            ntm.bifurcation_plot(list(c["x"]), ser, c["last"], **text(c, ["xlabel", "ylabel", "title"]))
        ax = plt.gcf().axes[0]
        ux = c if kind == "poincare" else {}
        return {"text": [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()], "xl": [num(v) for v in ax.get_xlim()], "yl": [num(v) for v in ax.get_ylim()],
                "pts": [[[unscaled(p[0], ux), unscaled(p[1], c)] for p in np.asarray(col.get_offsets()).tolist()] for col in ax.collections]}
    if kind == "degrees":
        n = net_of(c, c)
        o = {}
        if c["which"]:
            o[c["which"]] = True
        if c["eq"]:
            o["equation"] = lambda k: 3 * k + 1
        o.update(text(c, ["xlabel", "ylabel_freq", "ylabel_prob", "equation_text", "title"]))
        ntm.plot_degree_distribution(n, **o)
        axes = plt.gcf().axes
        return {"text": [axes[0].get_xlabel(), axes[0].get_ylabel(), axes[-1].get_ylabel(), "".join(t.get_text() for t in axes[-1].texts), axes[-1].get_title()],
                "bars": [[num(p.get_x() + p.get_width() / 2), num(p.get_height())] for p in axes[0].patches],
                "curve": [[num(a), num(b)] for a, b in zip(*axes[1].lines[0].get_data())] if c["eq"] else []}
    if kind == "hex":
        t = traj_of(dict(c, traj=True))
        ntm.plot_hex_grid(t, colormap=c["cmap"], **opts(c, ["shape", "slice", "vmin", "vmax", "title", "edgecolor"]))
        ax = plt.gcf().axes[0]
        cm = plt.get_cmap(c["cmap"])
        return {"hexes": [centre(*p.xy) + [idx(p.get_facecolor(), cm)] for p in ax.patches], "verts": corners([(p.xy, p.get_patch_transform().transform_path(p.get_path()).vertices[:6]) for p in ax.patches]),
                "down": bool(ax.yaxis_inverted()), "title": ax.get_title(),
                "edge": sorted(set(matplotlib.colors.to_hex(p.get_edgecolor()) if p.get_edgecolor()[3] > 0 else "" for p in ax.patches))}
    if kind == "animate_hex":
        t = traj_of(dict(c, traj=True))
        ntm.animate_hex(t, colormap=c["cmap"], **{k: v for k, v in film(c).items() if k != "dpi"}, **opts(c, ["shape", "vmin", "vmax", "title", "edgecolor"]))
        ax = plt.gcf().axes[0]
        title = ax.get_title()
        col = [x for x in ax.collections if x.get_array() is not None or len(x.get_paths()) > 1 or len(x.get_facecolor()) > 0]
        col = max(ax.collections, key=lambda x: len(x.get_paths()))
        cs, hx = [], []
        for p in col.get_paths():
            v = p.vertices[:6]
            cs.append(centre(*v.mean(axis=0)))
            hx.append((v.mean(axis=0), v))
        cm = plt.get_cmap(c["cmap"])

        def look():
            col.update_scalarmappable()     # what drawing does
            return [num(v) for v in np.asarray(col.get_array()).ravel()], [idx(f, cm) for f in col.get_facecolor()]
        fr = frames_of(ANIS[0], c["calls"], look)
        return {"centres": cs, "frames": [f[0] for f in fr], "shades": [f[1] for f in fr], "verts": corners(hx), "title": title, "edge": sorted(set(matplotlib.colors.to_hex(x) for x in col.get_edgecolor() if x[3] > 0)), "down": bool(ax.yaxis_inverted()), **made()}
    if kind == "network":
        lay = c["layout"] if c["layout"] != "pos" else {untok(x): (3 * k, k * k) for k, x in enumerate(c["nodes"])}
        ntm.plot_network(net_of(c, c), layout=lay, **c.get("look", {}))
        return {"drawn": [gdesc(*d) for d in DRAWN]}
    if kind == "animate_network":
        lays = {untok(x): (3 * k, k * k) for k, x in enumerate(c["all"])}
        t = [State(activities={}, network=net_of(c, s)) for s in c["states"]]
        lay = {"shell": "shell", "planar": "planar", "pos": lays, "list": [lays if k % 2 else "shell" for k in range(len(t))]}[c["layout"]]
        if c["layout"] == "list" and c["tuple"]:
            lay = tuple(lay)
        look = {k: v for k, v in c["look"].items() if k != "colours"}
        if c["look"].get("colours"):
            look["node_color"] = dict(enumerate(c["look"]["colours"]))
        ani = ntm.animate_network(t, layout=lay, with_timestep=c["with_timestep"], **film(c), **look)
        fr = frames_of(ani, c["calls"], lambda: (gdesc(*DRAWN[-1]), len(DRAWN), plt.gcf().axes[0].get_title()))
        return {"drawn": [f[0] for f in fr], "count": [f[1] for f in fr], "shown": [f[2] for f in fr], **made()}


def table(rng, T=None, n=None, hi=None):
    T = T or rng.choice([1, 2, 3, 5, 8, 11])
    n = n or rng.choice([1, 2, 3, 4, 6, 9, 12])
    hi = hi or rng.choice([1, 2, 9, 255])
    rows = [[rng.randint(-1 if hi == 2 else 0, hi) for _ in range(n)] for _ in range(T)]
    labels = rng.sample(range(-3, n + 8), n) if rng.random() < 0.7 else list(range(n))
    order = list(range(n))
    rng.shuffle(order)
    return {"rows": rows, "labels": labels, "order": order, "traj": rng.random() < 0.6}


def factor(rng, n):
    r = rng.choice([k for k in range(1, n + 1) if n % k == 0])
    return [r, n // r]


def scale(rng, c):
    c["vmin"], c["vmax"] = rng.choice([([], []), ([0], [9]), ([-2], [300]), ([-5], []), ([], [400])])
    c["colormap"] = rng.choice(["", "viridis", "plasma"])


def look(rng):
    o = {}
    for k, vs in (("with_labels", [True, False]), ("node_color", ["r", "#00ff00"]), ("node_size", [30, 7, 500])):
        if rng.random() < 0.4:
            o[k] = rng.choice(vs)
    return o


def graph(rng, most=99):
    pool = rng.choice([["i:%d" % k for k in range(9)], ["s:A", "s:b", "i:0", "s:0", "i:7", "f:0.5"]])
    nodes = rng.sample(pool, min(most, rng.randint(1, len(pool))))
    edges = [[rng.choice(nodes), rng.choice(nodes)] for _ in range(rng.choice([0, 1, 2, 4, 8, 14]))]
    return {"nodes": nodes, "edges": edges}


def case(rng):
    kind = rng.choice(["grid", "activities", "activities", "multiple", "animate", "animate", "animate1d", "plot1d", "plot1d", "poincare", "bifurcation",
                       "degrees", "degrees", "hex", "hex", "animate_hex", "network", "animate_network"])
    c = {"kind": kind}
    if kind.startswith("animate"):
        if rng.random() < 0.3:
            c["save"] = rng.random() < 0.7
        if rng.random() < 0.4:
            c["interval"] = rng.choice([10, 200, 1000])
        if kind != "animate_hex" and rng.random() < 0.4:
            c["dpi"] = rng.choice([50, 120])
    title = lambda: rng.choice(["", "x y", "T"])
    if kind in ("grid", "activities"):
        c.update(table(rng))
        c["traj"] = c["traj"] and kind == "activities"
        c["shape"] = rng.choice([[], factor(rng, len(c["rows"][0]))])
        c["slice"] = [rng.randint(-len(c["rows"]), len(c["rows"]) - 1)] if rng.random() < 0.7 else []
        c["title"] = title()
        scale(rng, c)
        rows, cols = c["shape"] or (len(c["rows"]), len(c["rows"][0]))
        c["node_annotations"] = [["%d.%d" % (i, j) for j in range(cols)] for i in range(rows)] if rng.random() < 0.2 and rows * cols < 30 else []
        c["show_grid"] = rng.random() < 0.3
    elif kind == "multiple":
        T, n = rng.randint(1, 4), rng.choice([1, 2, 4, 6])
        m = rng.randint(1, 3)
        c["tables"] = [table(rng, T, n)["rows"] for _ in range(m)]
        c["shape"] = rng.choice([[], factor(rng, n)])
        c["slice"] = [rng.randint(-T, T - 1)] if rng.random() < 0.7 else []
        scale(rng, c)
        c["titles"] = rng.choice([[], ["t%d" % k for k in range(m)]])
    elif kind == "animate":
        c.update(table(rng))
        n = len(c["rows"][0])
        c["cube"] = []
        c["shape"] = rng.choice([[n], [n], factor(rng, n), factor(rng, n), []])
        if c["shape"] == []:
            r, k = rng.randint(1, 3), rng.randint(1, 4)
            c["cube"] = [table(rng, r, k)["rows"] for _ in range(rng.randint(1, 4))]
        c["title"], c["with_timestep"] = title(), rng.random() < 0.5
        scale(rng, c)
        c["show_grid"], c["show_margin"], c["blit"] = rng.random() < 0.3, rng.random() < 0.7, rng.random() < 0.7
        c["calls"] = 2 * len(c["cube"] or c["rows"]) + 1
    elif kind == "animate1d":
        c.update(table(rng))
        c["x"] = rng.sample(range(-5, 30), len(c["rows"][0]))
        c["calls"] = len(c["rows"])
    elif kind == "plot1d":
        n, m = rng.randint(1, 6), rng.randint(1, 5)
        c["x"] = rng.sample(range(-5, 30), n)
        c["y"] = [[rng.randint(-9, 99) for _ in range(n)] for _ in range(m)]
        c["single"] = m == 1 and rng.random() < 0.7
        c["unit"] = rng.choice([0, 0, -1, -30, 12])
        c["tight"] = rng.choice([{}, {}, {"pad": 2}, {"h_pad": 1, "w_pad": 3}])
        c["twinx"] = m >= 2 and not c["single"] and rng.random() < 0.6
        c["arrays"] = rng.random() < 0.3
        c["label"] = rng.choice([[], ["s%d" % (7 * k % 5) for k in range(m)]])
        c["color"] = rng.choice([[], ["rgbkm"[3 * k % 5] for k in range(m)], ["r"]])
        c["xlabel"], c["ylabel"], c["title"] = rng.choice(["", "X"]), rng.choice([[], ["Y"], ["Y1", "Y2"]]), title()
        c["xlim"] = rng.choice([[], [-6, 31]])
        c["ylim"] = rng.choice([[], [[-10, 100]], [[-10, 100], [-20, 200]]])    # one pair, or a list of two
        if not c["twinx"]:
            c["ylim"] = c["ylim"][:1]
        c["legend"] = rng.choice([[], ["L"], ["L", "M"] if c["twinx"] else ["L"]]) if c["label"] else []
    elif kind in ("poincare", "bifurcation"):
        m = rng.randint(1, 4)
        L = rng.choice([2, 3, 5, 9])
        hi = rng.choice([2, 5, 99])
        c["series"] = [[rng.randint(-hi, hi) for _ in range(L + rng.choice([0, 0, 2]))] for _ in range(m)]
        c["last"] = rng.randint(1, L)
        c["unit"] = rng.choice([0, 0, -1, -30, 12])
        c["single"] = kind == "poincare" and m == 1
        c["arrays"] = rng.random() < 0.3
        c["x"] = [rng.randint(0, 9) for _ in range(m)]
        c["xlabel"], c["ylabel"], c["title"] = rng.choice(["", "X"]), rng.choice(["", "Y"]), title()
        c["xlim"], c["ylim"] = rng.choice([[], [-6, 31]]), rng.choice([[], [-10, 100]])
    elif kind == "degrees":
        g = graph(rng)
        if not g["edges"]:
            g["edges"] = [[g["nodes"][0], g["nodes"][-1]]]
        c.update(g)
        c["which"] = rng.choice(["", "in_degree", "out_degree"])
        c["eq"] = rng.random() < 0.3
        c["xlabel"], c["ylabel_freq"], c["ylabel_prob"], c["equation_text"], c["title"] = (rng.choice(["", w]) for w in ("X", "F", "P", "E", "T"))
    elif kind in ("hex", "animate_hex"):
        r, k = rng.randint(1, 5), rng.randint(1, 5)
        c.update(table(rng, None, r * k))
        c["shape"] = [r, k] if kind == "animate_hex" else rng.choice([[], [r, k], [r, k]])
        c["slice"] = [rng.randint(-len(c["rows"]), len(c["rows"]) - 1)] if rng.random() < 0.7 else []
        c["vmin"], c["vmax"] = rng.choice([([], []), ([0], [9]), ([-2], [300]), ([], [64]), ([2], [])])
        c["cmap"] = rng.choice(["viridis", "plasma"])
        c["title"] = title()
        if rng.random() < 0.4:
            c["edgecolor"] = rng.choice(["#ff0000", "#00ff00"])
        c["calls"] = 2 * len(c["rows"]) + 1
        c["traj"] = True
        if c["vmin"] and not c["vmax"]:
            c["rows"] = [[max(v, 2) for v in r] for r in c["rows"]]
        if c["vmax"] and not c["vmin"]:
            c["rows"] = [[min(v, 64) for v in r] for r in c["rows"]]
    elif kind == "network":
        c.update(graph(rng))
        c["layout"] = rng.choice(["shell", "spring", "pos", "pos"])
        c["look"] = look(rng)
    else:
        planar = rng.random() < 0.2
        st = [graph(rng, 4 if planar else 99) for _ in range(rng.randint(1, 4))]
        c["states"] = st
        c["all"] = sorted(set(x for s in st for x in s["nodes"]))
        c["layout"] = "planar" if planar else rng.choice(["shell", "pos", "list"])
        c["tuple"], c["with_timestep"] = rng.random() < 0.5, rng.random() < 0.6
        c["look"] = look(rng)
        if rng.random() < 0.3:
            c["look"]["with_arrows"] = False
        if rng.random() < 0.4:
            c["look"]["colours"] = [rng.choice("rgbcmk") for _ in st]
        c["calls"] = len(st)
    return c


def generate(rng, tier, args):
    return [{"fam": c["kind"], "seed": rng.randrange(2 ** 31), "cases": [c] + [dict(case(rng))][:0]} for c in (case(rng) for _ in range(args["n"]))]


def kindof(c):
    return c["kind"].startswith("animate")


def execute(s):
    ev = []
    for c in s["cases"]:
        o, v = guard(lambda: observe(c))
        if "look" in c:     # (tokens of what is asked for)
            c = dict(c, asked={k: ([tok(x) for x in v] if k == "colours" else tok(v)) for k, v in c["look"].items()})
        if "cmap" in c:
            c = dict(c, edge=c.get("edgecolor", ""))
        if kindof(c):
            c = dict(c, film={"save": bool(c.get("save")), "interval": tok(c.get("interval", 50)), "dpi": tok(c.get("dpi", 80))})
        if "tight" in c:
            c = dict(c, tight={k: tok(v) for k, v in c["tight"].items()})
        ev.append({"e": c["kind"], "c": c, "o": v if o == "ok" else {}, "out": o, "why": "" if o == "ok" else str(v)})
    return {"fam": s["fam"], "seed": s["seed"], "ev": ev}


def replay(b):
    o, v = guard(lambda: observe(b["c"]))
    return dict(out=o, why=str(v)[:200] if o != "ok" else "", o=v if o == "ok" else {})


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
