"""Records runs of evolve(): every call of a user function with its arguments and result, and the trajectory."""
from rec import *
import netomaton as ntm
from netomaton import Network, UpdateOrder, MemoizationKey, evolve

ORD = {"AF": UpdateOrder.ACTIVITIES_FIRST, "TF": UpdateOrder.TOPOLOGY_FIRST, "SY": UpdateOrder.SYNCHRONOUS}
POOLS = [[0, 1, 2, 3, 4, 5], [5, 3, 9, 0, 7, 2], ["A", "B", "C", "D", "E"], ["n1", 4, "x", 0, 2], [0, 1, 2], [7], [0], [10, 2, 33, 1], [257, -7, 5000, 300, 2 ** 40],
         [0.5, 2, -1.5, 3.25, 1e9], ["ab", "ba", "aa", "b"], ["(0, 0)", "n", "A long label", "A"], [(0, 0), (0, 1), (1, 0), (1, 1), "n"]]
RETS = ["bin", "int", "str", "float", "npint", "npfloat", "bool", "tern", "npbool", "wide", "neg", "opt"]


def value(kind, x):
    """A value of the given kind determined by the hash x."""
    if kind == "bin":
        return x % 2
    if kind == "tern":
        return x % 3
    if kind == "int":
        return x % 1000 - 500
    if kind == "neg":
        return [-1, -2, 0, 1][x % 4]
    if kind == "wide":
        return [0.1, 1 / 3, -7, 2 ** 40, 300, 1e300, 1e-9, 255.5, -2 ** 33][x % 9]
    if kind == "str":
        return ["", "a", "b", "ab", "q7", "\u00e9", "0", "a b"][x % 8]
    if kind == "float":
        return (x % 64) / 8
    if kind == "bool":
        return bool(x % 2)
    if kind == "npint":
        return np.int64(x % 5)
    if kind == "npfloat":
        return np.float64((x % 64) / 4)
    if kind == "npbool":
        return np.bool_(x % 2)
    if kind == "opt":
        return [None, 0, 1, "u"][x % 4]
    if kind == "list":
        return [x % 2, x % 3]


def rattrs(rng):
    return {rng.choice(["w", "weight", "hop"]): rng.choice([1, 0, -1, 0.5, "r", None, 0.1, 2 ** 40, True, ""]) for _ in range(rng.choice([0, 1, 1, 2]))}


# ---------------------------------------------------------------- scenarios
def generate(rng, tier, args):
    focus = args["focus"]
    n = args["n"]
    # a fifth of the scenarios of a property are drawn as for another one, so that every mixture of options occurs under each
    return [scenario(random.Random("%s/%s/%d" % (rng.random(), focus, k)), focus if k % 5 else FOCUSES[k // 5 % len(FOCUSES)], k) for k in range(n)]


FOCUSES = ["C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"]


def fan(rng):
    """Nodes with ever more neighbours."""
    labels = list(range(100, 100 + rng.choice([8, 10, 12, 14])))
    edges = [[j, i, {}] for k, i in enumerate(labels) for j in labels[:k]]
    rng.shuffle(edges)
    return {"kind": "fan", "labels": labels, "edges": edges, "rot": False}


def pick_net(rng, focus):
    r = rng.random()
    if rng.random() < (0.06 if focus == "C11" else 0.01):
        return fan(rng)
    rot_ok = focus not in ("C13",)
    if rot_ok and r < (0.45 if focus in ("C06", "C11") else 0.25):
        kind = rng.choice(["ca1", "ca1", "ca2m", "ca2v", "rot"])
        if kind == "ca1":
            n, r = rng.choice([[3, 1], [4, 1], [5, 1], [5, 2], [7, 1], [1, 0]])
            return ring([[(i + d) % n for d in range(-r, r + 1)] for i in range(n)])
        if kind in ("ca2m", "ca2v"):
            offs = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if kind == "ca2m" or a * b == 0]
            return ring([[((i // 3 + a) % 3) * 3 + (i % 3 + b) % 3 for a, b in offs] for i in range(9)])
        g = rand_net(rng)
        g["kind"], g["rot"] = "rot", True
        es = {l: [] for l in g["labels"]}
        for i, j, _ in g["edges"]:
            if i not in es[j]:
                es[j].append(i)
        rs = []
        for l in g["labels"]:
            nb = es[l][:]
            if rng.random() < 0.5 and l not in nb:
                nb.append(l)
            if rng.random() < 0.2:
                nb.append(rng.choice(g["labels"]))
            rng.shuffle(nb)
            rs.append([l, nb])
        rng.shuffle(rs)
        g["system"] = rs
        return g
    return rand_net(rng)


def ring(nb):
    n = len(nb)
    return {"kind": "ca", "labels": list(range(n)), "rot": True, "edges": [[j, i, {}] for i in range(n) for j in dict.fromkeys(nb[i])],
            "system": [[i, nb[i]] for i in range(n)]}


def rand_net(rng):
    labels = list(rng.choice(POOLS))
    if rng.random() < 0.5:
        rng.shuffle(labels)
    labels = labels[:rng.choice([0] + [1, 2, 3, 4, 6] * 5)]
    edges = []
    dens = rng.choice([0.15, 0.4, 0.8])
    if rng.random() < 0.04:
        labels, dens = [(7 * i + 4) % 13 for i in range(13)], 0.12
    for i in labels:
        for j in labels:
            k = 0
            while rng.random() < dens and k < 3:
                edges.append([i, j, rattrs(rng)])
                k += 1
                if rng.random() < 0.6:
                    break
    rng.shuffle(edges)
    return {"kind": "rand", "labels": labels, "edges": edges, "rot": False}


def build(g, use=None):
    n = Network()
    for l in g["labels"]:
        n.add_node(l)
    for k, (i, j, a) in enumerate(g["edges"]):
        if use and k == len(g["edges"]) // 2:
            n.add_node("once")
            n.add_edge("once", g["labels"][0], w=1)
            use(n)
            n.remove_node("once")
        n.add_edge(i, j, **a)
    if g["rot"]:
        n.rotation_system = {fresh(l): [fresh(x) for x in nb] for l, nb in g["system"]}
    return n


def init_values(rng, labels, kind):
    return [[l, value(kind, rng.randrange(10 ** 6))] for l in labels]


def scenario(rng, focus, k):
    g = pick_net(rng, focus)
    labels = g["labels"]
    ints = all(isinstance(l, int) for l in labels)
    ret = rng.choice(RETS)
    plain = {"npint": "int", "npfloat": "float", "npbool": "bool"}.get(ret, ret)
    s = {"fam": "", "seed": k, "net": g, "ret": ret, "order": rng.choice(["AF", "AF", "TF", "SY"]), "rule": True, "copy": True,
         "topo": None, "pert": None, "memo": None, "past": [], "plan": [], "mut": False}
    # topology rule
    ptopo = {"C07": 0.95, "C12": 0.6, "C13": 0.4, "C06": 0.4, "C11": 0.15}.get(focus, 0.3)
    if rng.random() < ptopo:
        if g["rot"]:
            s["topo"], s["copy"] = rng.choice(["id", "fresh_rot"]), False
        else:
            s["topo"] = rng.choice(["id", "edges", "edges", "fresh", "drop", "attr"])
            if s["topo"] in ("id", "fresh") and rng.random() < 0.5:
                s["copy"] = False
        if not g["rot"] and rng.random() < (0.15 if focus == "C07" else 0.03):
            s["copy"] = True
            s["rule"], s["topo"] = False, rng.choice(["grow", "edges", "drop", "grow", "vanish"])
    if focus == "C07" and s["rule"] and s["topo"] and s["order"] == "AF" and rng.random() < 0.5:
        s["order"] = rng.choice(["TF", "SY"])
    if focus in ("C10", "C12", "C08", "C06", "C07", "C09", "C11", "C13") and s["rule"]:
        p = {"C10": 1, "C12": 0.5, "C08": 0.4, "C11": 0.3, "C13": 0.4}.get(focus, 0.15)
        if rng.random() < p:
            s["pert"] = rng.choice(["hash", "hash", "some", "np", "id"])
    s["initk"] = plain if plain != "list" else "bin"
    s["init"] = init_values(rng, labels, s["initk"])
    shuf = s["init"][:]
    if not ints or labels != list(range(len(labels))) or rng.random() < 0.4:
        s["initform"] = "dict"
        if rng.random() < 0.3:
            rng.shuffle(shuf)
            s["init"] = shuf
    else:
        s["initform"] = rng.choice(["list", "array"]) if s["initk"] in ("int", "bin", "tern", "float") else "list"
    if not s["rule"]:
        s["initform"], s["pert"] = "dict", None
        if rng.random() < 0.5:
            s["init"] = []
    # past
    if s["rule"] and rng.random() < {"C09": 0.9, "C12": 0.3, "C13": 0.2}.get(focus, 0.15):
        w = rng.choice([1, 1, 2, 3, 4])
        s["past"] = [init_values(rng, labels, s["initk"]) for _ in range(w)]
        s["pastform"] = "dict" if s["initform"] == "dict" else "list"
    # input
    T = rng.choice([2, 3, 4, 5, 6])
    kind = "timesteps"
    if focus == "C08" or rng.random() < 0.25:
        kind = rng.choice(["timesteps", "list", "list", "fn", "fn"])
        if focus == "C08" and rng.random() < 0.05:
            kind = "neither"
    s["input"] = {"kind": kind}
    if kind == "timesteps":
        s["input"]["n"] = rng.choice([T, T, T, T, 1, 0, -1, -3, 8]) if focus == "C08" else T
    elif kind in ("list", "fn"):
        items = [rand_item(rng, labels) if s["rule"] and labels else rng.choice([["list", []], ["tuple", []], ["dict", []], ["all", 0], ["all", False], ["array", []]]) for _ in range(rng.choice([0, 1, 2, 3, 4, 5] if focus == "C08" else [1, 2, 3, 4]))]
        s["input"]["items"] = items
        if focus == "C08" and rng.random() < 0.3:
            s["input"]["ts"] = rng.choice([0, 1, 2, 9, 100])
        if kind == "fn" and rng.random() < 0.3:
            s["input"]["stop"] = rng.choice(["mod", "net"])
    # memo
    if s["rule"] and rng.random() < {"C11": 1, "C10": 0.3, "C12": 0.3, "C07": 0.25, "C08": 0.2, "C09": 0.2, "C06": 0.1}.get(focus, 0):
        s["memo"] = rng.choice(["default", "default", "default", "ordered", "bag", "cur_ordered", "label_ordered", "first"])
        if g["rot"] and s["topo"]:
            s["memo"] = rng.choice(["ordered", "cur_ordered", "label_ordered"])
        s["ret"] = s["initk"] = rng.choice(["bin", "tern", "str", "neg", "wide"])
        if rng.random() < 0.3 and s["ret"] in ("bin", "tern"):
            s["ret"] = "npint"
            s["initk"] = "int"
        if rng.random() < 0.15:
            s["ret"], s["initk"] = "opt", "tern"
        s["init"] = [[l, value("tern" if s["initk"] == "int" else s["initk"], rng.randrange(1000))] for l, _ in s["init"]]
        if g["kind"] == "fan" and rng.random() < 0.7:       # all in one state
            s["init"] = [[l, s["init"][0][1]] for l, _ in s["init"]]
        s["past"] = []
        if s["pert"] == "np" or s["initk"] not in ("bin", "tern", "int"):
            s["pert"] = s["pert"] and "some"
        if s["initform"] == "array" and s["initk"] in ("str", "wide"):
            s["initform"] = "list"
    # births and deaths
    if focus == "C13" or (focus in ("C08", "C09", "C10", "C12") and rng.random() < 0.3 and not s["memo"]):
        if s["rule"] and not g["rot"]:
            s["order"] = "AF"
            if s["topo"] not in (None, "id", "edges", "attr"):
                s["topo"] = rng.choice([None, "id", "edges"])
            if s["topo"] in ("edges", "attr"):
                s["copy"] = True
            if focus == "C08" or rng.random() < 0.3:
                s["input"] = {"kind": rng.choice(["list", "fn"]), "items": [["all", 3 + t % 2] for t in range(T - 1)]}
            else:
                s["input"] = {"kind": "timesteps", "n": T}
            s["plan"] = plan(rng, labels, T, s["initk"])
    if s["memo"] is None and s["rule"] and not s["plan"] and rng.random() < 0.3:
        s["ret"] = rng.choice(["mixed", "list"]) if focus == "C06" and rng.random() < 0.5 else s["ret"]
    # now and then a long run, and a network that an earlier run has already used, and that was edited since
    if s["input"]["kind"] == "timesteps" and not s["plan"] and s["topo"] in (None, "id") and 0 < len(labels) <= 3 and rng.random() < 0.15:
        s["input"]["n"] = rng.choice([20, 45, 70])
    s["used"] = s["rule"] and bool(labels) and rng.random() < 0.15
    # runs that are to be refused
    s["refuse"] = ""
    if s["input"]["kind"] != "neither" and not s["plan"] and rng.random() < {"C08": 0.06, "C07": 0.06}.get(focus, 0):
        s["refuse"] = rng.choice(["few", "few", "order"]) if focus == "C08" else "nonet" if s["topo"] and s["input"]["kind"] == "timesteps" else "order"
        if s["refuse"] == "few" and (not s["rule"] or not labels):
            s["refuse"] = "order"
        if s["refuse"] == "few":
            s["used"] = False
            s["init"] = s["init"][:rng.randrange(len(labels))] if rng.random() < 0.7 else s["init"] + [["extra", s["init"][0][1]]]
        if s["refuse"] != "few":
            s["input"] = {"kind": "timesteps", "n": T}
    s["fam"] = "%s.%s.%s%s%s%s%s%s" % (focus, s["order"], g["kind"], "+" + str(s["topo"]) if s["topo"] else "", "+pert" if s["pert"] else "",
                                       "+memo:" + s["memo"] if s["memo"] else "", "+past" if s["past"] else "", "+life" if s["plan"] else "")
    return s


def rand_item(rng, labels):
    ints = all(isinstance(l, int) and 0 <= l < 50 for l in labels)
    c = rng.random()
    if ints and c < 0.45:
        m = max(labels) + 1
        return [rng.choice(["list", "tuple"]), [rng.choice([0, 1, 2, None, "u", 0.5, False]) for _ in range(m)]]
    if c < 0.55:
        return ["dict", [["a", 1], ["b", 2]]]
    if c < 0.65:
        return ["array", [rng.randrange(3) for _ in range(3)]]
    return ["all", rng.choice([0, 1, 5, False, True, 2.5, 0.0, "__x__"[:0] or 7])]


def mk_item(it):
    k, v = it
    if k == "list":
        return list(v)
    if k == "tuple":
        return tuple(v)
    if k == "dict":
        return {a: b for a, b in v}
    if k == "array":
        return np.array(v)
    return v


def item_rec(it, labels):
    k, v = it
    if k in ("list", "tuple"):
        return ["per", {tok(l): tok(v[l]) for l in range(len(v))}]
    return ["all", tok(mk_item(it))]


def plan(rng, labels, T, kind):
    """Births and deaths, chosen in advance: [t, actor, removals, births]; births are [state, links, label]."""
    alive = list(labels)
    mixed = any(isinstance(l, (str, tuple)) for l in labels)
    nxt = rng.choice([1000, 1000, -900, 2 ** 33])     # labels no starting node has
    out = []
    for t in range(1, T):
        acts = []
        removed, born = [], []
        for actor in alive:
            rem, add = [], []
            if rng.random() < 0.25:
                rem.append(actor)
            if rng.random() < 0.15:
                rem.append(rng.choice(alive))
            if rng.random() < 0.04:
                rem = rem + rem[:1]
            removed += rem
            acts.append([actor, rem, add])
        gone = set(removed)
        surv = [l for l in alive if l not in gone]
        free = sorted(gone, key=repr)
        rng.shuffle(free)
        for actor, rem, add in acts:
            while rng.random() < 0.3 and len(surv) + len(born) < 7:
                if free and rng.random() < 0.4:
                    lab = free.pop()
                else:
                    lab = ("z%d" % nxt) if mixed else nxt
                    nxt += 1 if rng.random() < 0.7 else 5
                targets = [x for x in surv + born + [lab] if rng.random() < 0.4]
                rng.shuffle(targets)
                add.append([value(kind, rng.randrange(1000)), [[x, rattrs(rng)] for x in targets], lab])
                born.append(lab)
        # a birth may also be linked to the next one
        births = [b for _, _, add in acts for b in add]
        for b, b2 in zip(births, births[1:]):
            if rng.random() < 0.25:
                b[1].append([b2[2], rattrs(rng)])
        out += [[t] + a for a in acts if a[1] or a[2]]
        # the order in which births are appended is the order of the actors
        alive = surv + [b[2] for a in acts for b in a[2]]
    return out


# ---------------------------------------------------------------- execution
class Key(MemoizationKey):
    def __init__(self, kind):
        self.kind = kind

    def to_key(self, ctx):
        return memo_key(self.kind, ctx)


def memo_key(kind, ctx):
    na = tuple(ctx.neighbourhood_activities)
    if kind == "ordered":
        return na
    if kind == "bag":
        return tuple(sorted(na, key=repr))
    if kind == "cur_ordered":
        return (ctx.current_activity, na)
    if kind == "label_ordered":
        return (ctx.node_label, na)
    return na[0] if na else ""


class Run:
    def __init__(self, s, flags=None):
        self.s, self.flags = s, flags or {}
        self.ev = []
        self.invoked = 0
        self.plan = {(p[0], p[1]): p for p in s["plan"]}
        m = s["memo"]
        self.memo = {None: "none"}.get(m, m)
        if m == "default":
            self.memo = "ordered" if s["net"]["rot"] else "bag"

    def rule(self, ctx):
        s = self.s
        self.invoked += 1
        l, t = ctx.node_label, ctx.timestep
        conn = [[tok(i), [attr_rec(a) for a in es]] for i, es in ctx.connection_states.items()]
        e = {"e": "rule", "node": tok(l), "t": tok(t), "acts": acts_rec(ctx.activities), "nl": [tok(x) for x in ctx.neighbour_labels],
             "na": [tok(x) for x in ctx.neighbourhood_activities], "conn": conn, "cur": tok(ctx.current_activity),
             "haspast": ctx.past_activities is not None, "past": [acts_rec(p) for p in ctx.past_activities] if ctx.past_activities is not None else [],
             "inp": tok(ctx.input), "add": [], "rem": [], "accact": [], "accpast": [], "accedge": []}
        rng = random.Random("%s/%s/%s" % (s["seed"], l, t))
        for x in list(ctx.activities)[:3]:
            o, v = self.safe(lambda: ctx.activity_of(x))
            e["accact"].append([tok(x), v])
        if ctx.past_activities:
            for i in range(1, len(ctx.past_activities) + 1):
                n = len(ctx.past_activities)
                if (n + i + int(h(l, t))) % 2 and l in ctx.past_activities[n - i]:
                    o, v = self.safe(lambda: ctx.past_activity_of(l, n - i))
                    e["accpast"].append([tok(l), i, v])
                elif l in ctx.past_activities[-i]:
                    o, v = self.safe((lambda: ctx.past_activity_of(l)) if i == 1 else (lambda: ctx.past_activity_of(l, -i)))
                    e["accpast"].append([tok(l), i, v])
        for i, es in ctx.connection_states.items():
            for k, a in enumerate(es):
                for name in a:
                    o, v = self.safe((lambda: ctx.edge_data(i, name)) if k == 0 else (lambda: ctx.edge_data(i, name, k)))
                    e["accedge"].append([tok(i), k + 1, name, v])
        p = self.plan.get((t, l))
        if p:
            todo = [("r", x) for x in p[2]] + [("a", b) for b in p[3]]
            for k, x in todo:
                if k == "r":
                    ctx.remove_node(fresh(x))
                    e["rem"].append(tok(x))
                else:
                    ctx.add_node(x[0], {fresh(tg): dict(a) for tg, a in x[1]}, fresh(x[2]))
                    e["add"].append([tok(x[0]), [[tok(tg), attr_rec(a)] for tg, a in x[1]], tok(x[2])])
        kind = s["ret"]
        if self.memo != "none":
            x = h(s["seed"], repr(memo_key(self.memo, ctx)))
        else:
            x = h(s["seed"], tok(l), t, e["nl"], e["na"], e["cur"], e["inp"], e["past"], conn)
        if kind == "mixed":
            kind = RETS[x % len(RETS)]
        r = value(kind, x // 7)
        e["ret"] = tok(r.item() if isinstance(r, np.generic) else r)
        self.ev.append(e)
        return r

    def safe(self, fn):
        try:
            return "ok", tok(fn())
        except Exception as ex:
            return "exc", "<exc %s>" % type(ex).__name__

    def pert(self, ctx):
        s = self.s
        e = {"e": "pert", "node": tok(ctx.node_label), "t": tok(ctx.timestep), "act": tok(ctx.node_activity), "inp": tok(ctx.input)}
        x = h(s["seed"], "p", e["node"], e["t"], e["act"], e["inp"])
        r = ctx.node_activity
        kind = s["initk"] if s["memo"] != "x" else "bin"
        if kind == "int" and s["memo"]:
            kind = "tern"
        if s["pert"] == "hash" or (s["pert"] == "some" and x % 3 == 0):
            r = value(kind, x // 3)
        elif s["pert"] == "np":
            r = value(["npint", "npfloat", "npbool"][x % 3], x // 3)
        e["ret"] = tok(r.item() if isinstance(r, np.generic) else r)
        self.ev.append(e)
        return r

    def topo(self, ctx):
        s = self.s
        e = {"e": "topo", "t": tok(ctx.timestep), "acts": acts_rec(ctx.activities), "net": net_rec(ctx.network)}
        if s.get("refuse") == "nonet" and (ctx.timestep >= s["input"]["n"] - 1 or e["t"] != "i:1" or s["seed"] % 2):
            return None
        n = self.newnet(ctx.network, ctx.timestep, e["acts"])
        e["ret"] = net_rec(n)
        self.ev.append(e)
        return n

    def newnet(self, n, t, acts):
        s = self.s
        kind = s["topo"]
        rng = random.Random("%s/%s/%s" % (s["seed"], t, sorted(acts.items())))
        nodes = list(n.nodes)
        if kind == "id":
            return n
        if kind in ("fresh", "fresh_rot"):
            m = Network()
            for x in nodes:
                m.add_node(x)
            for i, j, a in list(n.edges):
                if rng.random() < 0.8 or kind == "fresh_rot":
                    m.add_edge(i, j, **a)
            if nodes:
                m.add_edge(rng.choice(nodes), rng.choice(nodes), w=t)
            if kind == "fresh_rot":
                rs = n.rotation_system
                m.rotation_system = {x: tuple(reversed(list(rs[x]))) if t % 2 else list(rs[x]) for x in nodes}
            return m
        if kind == "attr":
            for i, j, a in list(n.edges):
                if rng.random() < 0.5:
                    n.update_edge(i, j, w=rng.randrange(5))
            return n
        if kind == "grow":
            new = "g%d" % t
            n.add_node(new, born=t)
            if nodes:
                n.add_edge(rng.choice(nodes), new, w=t)
            return n
        if kind == "vanish" and rng.random() < 0.4:
            return Network()
        if kind == "vanish":
            n.add_node("v%d" % t)
            return n
        if kind == "drop" and len(nodes) > 1 and rng.random() < 0.5:
            n.remove_node(rng.choice(nodes))
            nodes = list(n.nodes)
        for _ in range(2):
            es = [(i, j) for i, j, _ in n.edges]
            if es and rng.random() < 0.5:
                i, j = rng.choice(es)
                n.remove_edge(i, j)
            elif nodes:
                n.add_edge(rng.choice(nodes), rng.choice(nodes), w=t)
        return n

    def input(self, t, acts, net):
        s = self.s
        items = s["input"]["items"]
        stop = t - 1 >= len(items)
        if s["input"].get("stop") == "mod" and h(acts_rec(acts)) % 5 == 0:
            stop = True
        if s["input"].get("stop") == "net" and len(net) > 3 and t > 2:
            stop = True
        e = {"e": "input", "t": tok(t), "acts": acts_rec(acts), "net": net_rec(net),
             "ret": ["none"] if stop else item_rec(items[t - 1], s["net"]["labels"])}
        self.ev.append(e)
        if len(self.ev) > 4000:
            raise RuntimeError("runaway")
        return None if stop else mk_item(items[t - 1])

    def evolve(self):
        s = self.s
        use = None
        if s.get("used"):
            use = lambda n: evolve(n, initial_conditions={l: 0 for l in n.nodes}, activity_rule=lambda c: len(c.neighbour_labels), timesteps=3,
                                   memoize=s["seed"] % 2 == 0, perturbation=(lambda c: 1) if s["seed"] % 3 == 0 else None)
        net = self.network = build(s["net"], use)
        self.net0 = net_rec(net)
        init = {fresh(l): v for l, v in s["init"]}
        if s["initform"] == "list":
            init = [v for _, v in s["init"]]
        elif s["initform"] == "array":
            init = np.array([v for _, v in s["init"]])
        past = None
        if s["past"]:
            past = [{fresh(l): v for l, v in p} if s["pastform"] == "dict" else [v for _, v in p] for p in s["past"]]
        self.init, self.past = init, past
        kw = dict(topology_rule=self.topo if s["topo"] else None, perturbation=self.pert if s["pert"] else None, past_conditions=past,
                  update_order=ORD[s["order"]], copy_network=s["copy"])
        i = s["input"]
        if i["kind"] == "timesteps":
            kw["timesteps"] = i["n"]
        elif i["kind"] == "list":
            kw["input"] = [mk_item(x) for x in i["items"]]
        elif i["kind"] == "fn":
            kw["input"] = self.input
        if "ts" in i:
            kw["timesteps"] = i["ts"]
        if self.memo != "none":
            kw["memoize"] = True
            if s["memo"] != "default":
                kw["memoization_key"] = Key(self.memo)
        kw = given(s["seed"], {"update_order": UpdateOrder.ACTIVITIES_FIRST, "copy_network": True, "topology_rule": None, "perturbation": None, "past_conditions": None}, **kw)
        if s.get("refuse") == "order":
            kw["update_order"] = ["ACTIVITIES_FIRST", 1, "SYNCHRONOUS"][s["seed"] % 3]
        kw.update(self.flags)
        if kw.get("memoize") is False:
            kw.pop("memoization_key", None)
        return guard(lambda: evolve(net, initial_conditions=init, activity_rule=self.rule if s["rule"] else None, **kw), 20)


def traj_rec(traj):
    out = []
    for st in traj:
        a, n = st.activities, st.network
        out.append({"a": acts_rec(a) if a is not None else {}, "hasA": a is not None, "n": net_rec(n), "hasN": n is not None})
    return out


def execute(s):
    r = Run(s)
    o, traj = r.evolve()
    ref = []
    if r.memo != "none" and o == "ok":
        q = Run(s, {"memoize": False})
        o2, t2 = q.evolve()
        ref = [acts_rec(x.activities) for x in t2] if o2 == "ok" else [{"failed": o2}]
    ev = r.ev[:3000]
    tj = []
    if o == "ok":
        ot, tj = guard(lambda: traj_rec(traj))
        if ot != "ok":
            o, tj = ot, []
    ev.append({"e": "end", "out": o.split(":")[0], "why": "" if o == "ok" else "%s %s" % (o, traj), "traj": tj, "islist": isinstance(traj, list), "ref": ref, "invocations": r.invoked})
    i = s["input"]
    inp = {"kind": i["kind"]}
    if i["kind"] == "timesteps":
        inp["n"] = i["n"]
    if i["kind"] == "list":
        inp["items"] = [item_rec(x, s["net"]["labels"]) for x in i["items"]]
    return {"fam": s["fam"], "name": s["fam"], "seed": s["seed"], "order": s["order"], "topo": bool(s["topo"]), "rule": s["rule"], "pert": bool(s["pert"]),
            "memo": r.memo, "copy": s["copy"], "input": inp, "past": [{tok(l): tok(v) for l, v in p} for p in s["past"]],
            "init": {tok(l): tok(v) for l, v in s["init"]}, "net": r.net0, "refuse": s.get("refuse", ""), "ev": ev}


if __name__ == "__main__":
    main(execute, generate)
