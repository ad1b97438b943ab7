"""Initial conditions and reporting helpers."""
from rec import *
import netomaton as ntm


def generate(rng, tier, args):
    out = []
    for _ in range(args["n"]):
        ev = []
        for _ in range(6):
            k = rng.choice(["simple", "simple2d", "random", "random", "random", "table", "ncr", "ncr", "ncr_bad", "bits"])
            dt = rng.choice(["int", "int", "float"])
            if k == "simple":
                ev.append({"e": k, "size": rng.randint(1, 60), "val": rng.choice([1, 1, 2, 9, -3, 0]), "dtype": dt, "plain": rng.random() < 0.3})
            elif k == "simple2d":
                ev.append({"e": k, "rows": rng.randint(1, 9), "cols": rng.randint(1, 9), "val": rng.choice([1, 1, 2, 9, -3]), "dtype": dt, "plain": rng.random() < 0.3})
            elif k == "random":
                size = rng.choice([1, 2, 3, 5, 10, 11, 40, 41, 300])
                n = rng.choice([size, size, -2, rng.randint(0, size), rng.randint(0, size), 0, size + 1, -1])
                ev.append({"e": k, "size": size, "n": n, "k": rng.choice([1, 2, 2, 3, 5, 10]), "empty": rng.choice([0, 0, 7, -1]), "dtype": dt,
                           "np": rng.choice(["int32", "int64", "builtin"]) if dt == "int" else rng.choice(["float64", "builtin"]),
                           "all": n == -2 or (n == size and rng.random() < 0.5), "plain": rng.random() < 0.3})
                if n == -2:
                    ev[-1]["n"] = size
            elif k == "table":
                labels = rng.sample(range(-5, 60), rng.randint(1, 12))
                rows = []
                for _ in range(rng.randint(1, 5)):
                    if rng.random() < 0.3:
                        labels = rng.sample(range(-5, 60), rng.randint(1, 12))
                    ls = list(labels)
                    rng.shuffle(ls)
                    rows.append([[l, rng.choice([0, 1, 2, l, -4])] for l in ls])
                ev.append({"e": k, "acts": rows, "as": rng.choice(["", "", "str", "half", "tuple", "np"])})
            elif k == "ncr":
                n = rng.choice([0, 1, 2, 5, 10, 20, 33, 60, 70])
                ev.append({"e": k, "n": n, "r": rng.choice([0, 1, n, n + 1, n // 2, rng.randint(0, n)])})
            elif k == "ncr_bad":
                ev.append({"e": k, "n": rng.choice([-1, 2.5, "3", -3]), "r": 2} if rng.random() < 0.5 else {"e": k, "n": 4, "r": rng.choice([-1, 1.0, "1", None])})
            else:
                top = rng.choice([1, 2, 3, 9, 255, 256, 2 ** 20, 2 ** 30])
                ev.append({"e": k, "vs": [rng.choice([0, top, rng.randint(0, top), rng.randint(0, top)]) for _ in range(rng.randint(1, 6))], "float": rng.random() < 0.2})
        out.append({"fam": "", "seed": rng.randrange(2 ** 31), "ev": ev})
    return out


TYPES = {"int": int, "float": float}


def kinds(xs):
    return sorted(set(type(x).__name__ for x in xs))


def do(e):
    k = e["e"]
    e = dict(e)
    if k == "simple":
        kw = {} if e["plain"] and e["val"] == 1 else {"val": e["val"]}
        if not (e["plain"] and e["dtype"] == "int"):
            kw["dtype"] = TYPES[e["dtype"]]
        v = ntm.init_simple(e["size"], **kw)
        e.update(got=[int(x) for x in v], types=kinds(v))
    elif k == "simple2d":
        kw = {} if e["plain"] and e["val"] == 1 else {"val": e["val"]}
        if not (e["plain"] and e["dtype"] == "int"):
            kw["dtype"] = TYPES[e["dtype"]]
        v = ntm.init_simple2d(e["rows"], e["cols"], **kw)
        e.update(got=[int(x) for x in v], types=kinds(v))
    elif k == "random":
        kw = {}
        if not e["all"]:
            kw["n_randomized"] = e["n"]
        if not (e["plain"] and e["k"] == 2):
            kw["k"] = e["k"]
        if e["empty"]:
            kw["empty_value"] = e["empty"]
        if not (e["plain"] and e["dtype"] == "int"):
            kw["dtype"] = TYPES[e["dtype"]] if e["np"] == "builtin" else getattr(np, e["np"])
        try:
            v = ntm.init_random(e["size"], **kw)
            e.update(out="ok", got=[int(round(x * 1000)) for x in v], types=kinds(v))
        except Exception:
            e.update(out="refused", got=[], types=[])
    elif k == "table":
        label = {"": lambda l: l, "str": lambda l: "n%03d" % (l + 100), "half": lambda l: l / 2, "tuple": lambda l: (l // 3, l % 3), "np": np.int64}[e["as"]]
        traj = [ntm.State(activities={label(l): v for l, v in row}, network=None) for row in e["acts"]]
        e["got"] = [[int(x) for x in r] for r in ntm.get_activities_over_time_as_list(traj)]
    elif k == "ncr":
        v = ntm.ncr(e["n"], e["r"])
        e.update(a=int(v % 10007), b=int(v % 9973), zero=bool(v == 0))
    elif k == "ncr_bad":
        try:
            ntm.ncr(e["n"], e["r"])
            out = "ok"
        except Exception:
            out = "refused"
        e = {"e": k, "out": out}
    elif k == "bits":
        v = ntm.binarize_for_plotting([[float(x) if e["float"] else x] for x in e["vs"]])
        e["got"] = [[int(x) for x in r] for r in v]
    return e


def execute(s):
    ev = []

    def go():
        for e in s["ev"]:
            ev.append(do(e))
    o, v = guard(go)
    ev.append({"e": "end", "out": o, "why": str(v)})
    return {"fam": s["fam"], "seed": s["seed"], "ev": ev}


def replay(b):
    c = b["c"]

    def go():
        k = c["k"]
        if k == "simple":
            return [int(x) for x in ntm.init_simple(c["size"], val=c["val"])]
        if k == "simple2d":
            return [int(x) for x in ntm.init_simple2d(c["rows"], c["cols"], val=c["val"])]
        if k == "region":
            try:
                return [int(x) for x in ntm.init_random(c["size"], k=1, n_randomized=c["n"], empty_value=9)]
            except Exception:
                return [-1]
        if k == "ncr":
            return [int(ntm.ncr(c["n"], c["r"]) % 1000003)]
        return [[int(x) for x in r] for r in ntm.binarize_for_plotting([[c["a"]], [c["b"]]])]
    o, v = guard(go)
    return {"out": o, "answer": v}


if __name__ == "__main__":
    req = json.load(open(sys.argv[1]))
    main(replay if req["args"].get("mode") == "replay" else execute, generate)
