"""Runs of Turing machines in both forms."""
from rec import *
from netomaton import evolve, HeadCentricTuringMachine, TapeCentricTuringMachine


def halting_time(s, bound):
    """Number of configurations until the terminating state is entered (generation only), or None."""
    tape, q, p = list(s["tape"]), s["q"], s["pos"]
    t = {(a, b): (c, d, e) for a, b, c, d, e in s["table"]}
    for k in range(1, bound):
        if (q, tape[p]) not in t:
            return k
        q, tape[p], d = t[(q, tape[p])]
        p = (p + d - 1) % len(tape)
        if q == s["term"]:
            return k + 1
    return None


def generate(rng, tier, args):
    out = []
    for k in range(args["n"]):
        form = rng.choice(["tape", "head"])
        states = rng.choice([[0, 1], [0, 1, 2], ["A", "B"], ["q1", "q2", "H"], [5, -1, 0], ["s"], [1], ["", "x"], [0.5, 1.5], [(0, 1), (1, 0), "q"], [1000, -7, 2 ** 40], ["state one", "state two"]])
        syms = rng.choice([[0, 1], [0, 1, 2], ["a", "b"], ["#", "0", "1"], [1], [3, 0], [0.5, 2], [" ", "x"], [-1, 300, 2 ** 40], [0, 1, 2, 3, 4]])
        extra = rng.choice([[], [], ["halt"] if isinstance(states[0], str) else [0] if 0 not in states else [9]])
        n = rng.choice([3, 3, 4, 5, 7, 11]) if form == "tape" else rng.choice([1, 1, 2, 3, 4, 6, 10])
        table = []
        keep = rng.choice([1, 1, 1, 0.8])
        for q in states:
            for y in syms:
                if rng.random() < keep:
                    table.append([q, y, rng.choice(states + extra), rng.choice(syms), rng.choice([0, 1, 2, 0, 2])])
        s = {"form": form, "fam": form, "seed": k, "table": table, "tape": [rng.choice(syms) for _ in range(n)], "q": rng.choice(states), "pos": rng.randrange(n),
             "term": None, "limit": rng.choice([1, 2, 3, 5, 8, 12, 20, 45]), "flags": rng.choice([{}, {}, {"compression": True}, {"persist_network": False}])}
        if form == "head":
            if rng.random() < 0.6:
                s["term"] = rng.choice(extra or states)
                if rng.random() < 0.6 and halting_time(s, 30) is not None:
                    s["limit"] = 0
        s["tapetype"] = rng.choice(["list", "list", "tuple", "str"])
        out.append(s)
    return out


def rules(s):
    r = {}
    for q, y, q2, y2, d in s["table"]:
        r.setdefault(q, {})[y] = [q2, y2, d]
    return r


def marks(row):
    return [[i, x] for i, x in enumerate(row) if x is not None]


def run(s):
    evs = []
    r = rules(s)
    if s["form"] == "tape":
        tm = TapeCentricTuringMachine(n=len(s["tape"]), rule_table=r, initial_head_state=s["q"], initial_head_position=s["pos"])
        traj = evolve(initial_conditions=list(s["tape"]), network=tm.network, activity_rule=tm.activity_rule, timesteps=s["limit"], **s["flags"])
        heads = tm.head_activities(traj)
        if len(heads) != len(traj):
            raise AssertionError("head activities of another length")
        for x, m in zip(traj, heads):
            a = x.activities
            mk = marks(m)
            evs.append({"e": "cfg", "tape": [tok(a[i]) for i in range(len(s["tape"]))], "q": "?", "pos": mk[0][0] if mk else -1, "marks": mk})
    else:
        tape = list(s["tape"])
        if s["tapetype"] == "tuple":
            tape = tuple(tape)
        elif s["tapetype"] == "str" and isinstance(tape[0], str):
            tape = "".join(tape)
        kw = {}
        if s["term"] is not None:
            kw["terminating_state"] = s["term"]
        if s["limit"]:
            kw["max_timesteps"] = s["limit"]
        tm = HeadCentricTuringMachine(tape=tape, rule_table=r, initial_head_state=s["q"], initial_head_position=s["pos"], **kw)
        traj = evolve(initial_conditions=tm.initial_conditions, network=tm.network, activity_rule=tm.activity_rule, input=tm.input_function, **s["flags"])
        tapes, heads = tm.activities_for_plotting(traj)
        if not (len(tapes) == len(heads) == len(traj)):
            raise AssertionError("tapes, heads and states of different lengths")
        for x, tp, m in zip(traj, tapes, heads):
            (q, p), = x.activities.values()
            evs.append({"e": "cfg", "tape": [tok(v) for v in tp], "q": tok(q), "pos": p, "marks": marks(m)})
    return evs


def execute(s):
    allq = {s["q"]} | {x for t in s["table"] for x in (t[0], t[2])}
    rec = {"form": s["form"], "fam": s["form"], "seed": s["seed"], "table": [[tok(a), tok(b), tok(c), tok(d), e] for a, b, c, d, e in s["table"]],
           "tape": [tok(x) for x in s["tape"]], "q": tok(s["q"]), "pos": s["pos"], "term": tok(s["term"]), "hasterm": s["term"] is not None,
           "limit": s["limit"], "text": {tok(q): str(q) for q in allq}}
    o, v = guard(lambda: run(s))
    rec["ev"] = (v if o == "ok" else []) + [{"e": "end", "out": o, "why": str(v) if o != "ok" else ""}]
    return rec


def replay(e):
    h0 = e["hist"][0]
    steps = len(e["hist"])
    missing = e["status"] == "missing"
    s = {"table": e["table"], "tape": h0["tape"], "q": h0["q"], "pos": h0["pos"], "tapetype": "list", "flags": {}}
    out = {"out": "ok"}
    for form in ("tape", "head"):
        # the tape form has no terminating state: it is run for as long as the machine ran
        r = dict(s, form=form, term=None if form == "tape" or e["term"] == 9 else e["term"], limit=steps + missing if form == "tape" else e["limit"])
        o, v = guard(lambda: run(r))
        out[form] = [o[:3] == "exc"] + ([[[untok(x) for x in c["tape"]], c["pos"], c["marks"]] for c in v] if o == "ok" else [])
    return out


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
