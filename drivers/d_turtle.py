"""Turtle programs, and renderings of L-systems."""
from rec import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.animation as animation
from matplotlib.collections import LineCollection

ANIS = []
_FA = animation.FuncAnimation


class FuncAnimation(_FA):
    def __init__(self, *a, **k):
        _FA.__init__(self, *a, **k)
        self._draw_was_started = True
        self.given = [k.get("interval"), bool(k.get("repeat"))]
        ANIS.append(self)


animation.FuncAnimation = FuncAnimation
import netomaton as ntm

UNIT = 100000


def cmd(rng, depth, angles):
    ks = ["fwd"] * 4 + ["rot"] * 3 + ["push"] * 2 + (["pop"] * 2 if depth else [])
    k = rng.choice(ks)
    v = 0
    if k == "fwd":
        v = rng.choice([4, 4, 4, 8, 2, 1, 12, 20, -4, 0, 7])
    elif k == "rot":
        v = rng.choice(angles)
    return {"c": k, "v": v}


def balanced(rng, n, angles):
    depth, out = 0, []
    for _ in range(n):
        c = cmd(rng, depth, angles)
        depth += {"push": 1, "pop": -1}.get(c["c"], 0)
        out.append(c)
    return out, depth


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        angles = rng.choice([[180, -180], [180, -180, 360, 720], [60, -60, 30], [45, -45], [50, -50], [rng.randint(-1500, 1500) for _ in range(4)], [1, -1, 719]])
        s = {"seed": rng.randrange(2 ** 31), "x": rng.choice([0, 0, 0, 3, -2, 0.25]), "y": rng.choice([0, 0, 0, 1, -5, -1.5]), "o": rng.choice([0, 0, 0, 180, -90, 60, 900, 45, -1])}
        if rng.random() < 0.5:
            prog, _ = balanced(rng, rng.choice([1, 3, 6, 12, 25, 60, 120]), angles)
            s.update(fam="program", prog=prog)
        else:
            alpha = list(rng.choice(["F+-", "FX+-", "F[]+", "AB[]+-", "LRF+-", "x +-", "01[]-", "fF\u00b0+"]))
            bind = {}
            for a in alpha:
                if a == "[":
                    bind[a] = [{"c": "push", "v": 0}] + ([{"c": "rot", "v": rng.choice(angles)}] if rng.random() < 0.4 else [])
                elif a == "]":
                    bind[a] = [{"c": "pop", "v": 0}] + ([{"c": "rot", "v": rng.choice(angles)}] if rng.random() < 0.4 else [])
                else:
                    b, d = balanced(rng, rng.choice([0, 1, 1, 1, 2, 3]), angles)
                    bind[a] = b + [{"c": "pop", "v": 0}] * d
            def word(n):
                w, d = "", 0
                for _ in range(n):
                    c = rng.choice(alpha if d else [a for a in alpha if a != "]"])
                    d += {"[": 1, "]": -1}.get(c, 0)
                    w += c
                return w + "]" * d
            rules = {a: (word(rng.choice([1, 2, 3, 4])) if a not in "[]+-" else a) for a in alpha}
            s.update(fam="render", bind=bind, rules=rules, axiom=word(rng.choice([1, 1, 2, 3])) or "F", gens=rng.choice([0, 1, 2, 3]), how=rng.choice(["plot", "animate"]),
                     form=rng.randrange(2 ** 31))
            while s["gens"] and len(s["axiom"]) * max(len(v) for v in rules.values()) ** s["gens"] > 60:
                s["gens"] -= 1
        out.append(s)
    return out


def fx(v):
    return int(round(v * UNIT))


def seg(s):
    (x1, x2), (y1, y2) = s
    return [fx(x1), fx(y1), fx(x2), fx(y2)]


class Recorder(ntm.Turtle):
    def _note(self, c, v):
        o = self.orientation * 2
        self.log.append({"e": "cmd", "c": c, "v": int(round(v)), "x": fx(self.x), "y": fx(self.y), "o": int(round(o)) if abs(o - round(o)) < 1e-6 else 10 ** 6,
                         "nseg": len(self.trajectory), "abs": int(round(self.abs * 10)),
                         "seg": seg(self.trajectory[-1]) if c == "fwd" and self.trajectory else []})

    def forward(self, distance=1):
        super().forward(distance)
        self._note("fwd", distance * 4)

    def rotate(self, degrees):
        super().rotate(degrees)
        self._note("rot", degrees * 2)

    def push(self):
        super().push()
        self._note("push", 0)

    def pop(self):
        super().pop()
        self._note("pop", 0)

    drawn = None

    def plot(self, **kw):
        plt.close("all")
        super().plot(**kw)
        self.drawn = {"e": "drawn", "segs": lines_of(plt.gcf().axes[0])}

    def animate(self, **kw):
        if not self.trajectory:     # nothing to animate
            return
        plt.close("all")
        del ANIS[:]
        super().animate(**kw)
        ax, frames = plt.gcf().axes[0], []
        for _, f in zip(range(30), ANIS[0].new_frame_seq()):
            ANIS[0]._func(f)
            frames.append(lines_of(ax))
        lim = lambda l: [fx(min(l)), fx(max(l))]
        self.drawn = {"e": "frames", "frames": frames, "repeats": bool(kw.get("repeat", False)), "given": ANIS[0].given[1],
                      "interval": kw.get("interval", 50), "pace": ANIS[0].given[0], "xlim": lim(ax.get_xlim()), "ylim": lim(ax.get_ylim())}


def lines_of(ax):
    """The straight pieces drawn."""
    out = []
    for l in [l.get_xydata() for l in ax.lines] + [s for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]:
        out += [[fx(p[0]), fx(p[1]), fx(q[0]), fx(q[1])] for p, q in zip(l, l[1:])]
    return out


def num(v, d):
    return v // d if v % d == 0 else v / d


def instr(t, c, rng, bare):
    """One bound instruction, as a callable or a tuple."""
    if rng.random() < 0.15:         # several arguments
        f = {"fwd": t.forward, "rot": t.rotate, "push": t.push, "pop": t.pop}[c["c"]]
        a = [] if c["c"] in ("push", "pop") else [num(c["v"], 4 if c["c"] == "fwd" else 2)]
        return (lambda g, *b: g(*b[:len(a)]), f) + tuple(a) + tuple(rng.choice([[], [0], [3, 4]]))
    if c["c"] == "fwd":
        if c["v"] == 4 and bare:
            return t.forward
        return (t.forward, num(c["v"], 4)) if rng.random() < 0.7 else (lambda: t.forward(num(c["v"], 4)))
    if c["c"] == "rot":
        return (t.rotate, num(c["v"], 2)) if rng.random() < 0.7 else (lambda: t.rotate(num(c["v"], 2)))
    f = t.push if c["c"] == "push" else t.pop
    return f if rng.random() < 0.7 else (f,)


def do(t, c):
    {"fwd": lambda: t.forward(num(c["v"], 4)), "rot": lambda: t.rotate(num(c["v"], 2)), "push": t.push, "pop": t.pop}[c["c"]]()


def execute(s):
    ev = []
    rec = {k: v for k, v in s.items() if k not in ("how", "form", "bind", "rules", "axiom")}
    rec.update(x=fx(s["x"]), y=fx(s["y"]), ev=ev)
    if s["fam"] == "render":
        rec.update(bind=s["bind"], rules={a: list(w) for a, w in s["rules"].items()}, axiom=list(s["axiom"]))

    def go():
        t = Recorder(s["x"], s["y"], num(s["o"], 2)) if (s["x"], s["y"], s["o"]) != (0, 0, 0) else Recorder()
        t.log = ev
        if s["fam"] == "program":
            for c in s["prog"]:
                do(t, c)
        else:
            rng = random.Random(s["form"])
            bind = {}
            for a, cs in s["bind"].items():
                ins = [instr(t, c, rng, rng.random() < 0.5) for c in cs]
                bind[a] = ins[0] if len(ins) == 1 and rng.random() < 0.7 else ins
            system = ntm.SubstitutionSystem(s["axiom"], dict(s["rules"]))
            traj = ntm.evolve(network=system.network, initial_conditions=system.initial_conditions, activity_rule=system.activity_rule, timesteps=s["gens"] + 1)
            if s["how"] == "plot":
                ntm.plot_L_system(traj[-1], t, bind)
            else:
                ntm.animate_L_system(traj[-1], t, bind, interval=10)
        segs = [seg(x) for x in t.trajectory]
        if s["fam"] == "program" and len(segs) < 40 and s["seed"] % 3 == 0:
            t.plot() if s["seed"] % 2 else t.animate(**[{"interval": 20}, {}, {"interval": 7, "repeat": False}][s["seed"] % 5 % 3])
        if t.drawn:
            ev.append(t.drawn)
        return segs
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "segs": v if o == "ok" else [], "why": "" if o == "ok" else str(v)})
    return rec


def replay(e):
    def go():
        t = Recorder(*e["from"])
        t.log = []
        for c in e["prog"]:
            do(t, c)
        return t
    o, t = guard(go)
    return {"out": o} if o != "ok" else {"out": o, "x": fx(t.x), "y": fx(t.y), "o": int(t.orientation * 2), "segs": [seg(x) for x in t.trajectory]}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
