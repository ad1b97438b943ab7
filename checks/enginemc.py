"""Exhaustive checking of EngineMC at small constants, and replay of its complete behaviours on the real engine."""
from vlib import tier, SEED
import random

INVS = ["TypeOK", "Networks", "Domains", "Covered", "Length", "PastIsHistory", "PertCalls", "MemoFunction", "MemoSound"]
PROPS = ["Terminates", "LifeTakesEffect", "Frozen"]


def consts(**kw):
    d = dict(Orders=["AF"], TopoRules=[False], Perts=[False], Memos=["none"], Pasts=[0], Inputs=["t3"], Nets=["pair"],
             Vals=["i:0", "i:1"], PertVals=["="], TopoMoves=["id"], Life=["none"])
    d.update(kw)

    def s(v):
        return "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x).upper() for x in v) + "}"
    return "CONSTANTS\n" + "\n".join("  %s = %s" % (k, s(v)) for k, v in d.items()) + "\n  Cs <- CsOk\n  Items <- ItemSet\n"


def norm_fn(x):
    return {} if x == [] else x


def norm_net(n):
    return {"nodes": n["nodes"], "na": {k: norm_fn(v) for k, v in norm_fn(n["na"]).items()},
            "inc": {k: [[s, [norm_fn(a) for a in es]] for s, es in v] for k, v in norm_fn(n["inc"]).items()}, "rot": n["rot"]}


def explore(chk, limit, props=None, **kw):
    em = chk.model_check("EngineMCRun", consts(**kw), invariants=INVS, properties=props if props is not None else PROPS, emit="Emit", timeout=850)
    total = len(em)
    if total > limit:
        em = random.Random(SEED).sample(em, limit)
    got = chk.driver("d_engine_replay", {}, scenarios=em, timeout=600)
    for e, r in zip(em, got):
        exp = [{"a": norm_fn(s["a"]), "n": norm_net(s["n"])} for s in e["hist"]]
        probs = list(r["problems"])
        if r["out"] != "ok":
            probs.append("outcome")
        elif len(r["traj"]) != len(exp):
            probs.append("length")
        else:
            if any(x["a"] != y["a"] for x, y in zip(r["traj"], exp)):
                probs.append("activities")
            if any(x["n"][k] != y["n"][k] for x, y in zip(r["traj"], exp) for k in ("nodes", "na", "inc")):
                probs.append("network")
        for p in dict.fromkeys(probs):
            chk.violation("%s.replay.%s" % (chk.pid, p), {"behaviour": e, "got": r},
                          "a behaviour of the engine specification is not reproduced by evolve(): %s %s" % (p, r.get("why", "")))
    chk.replayed += len(em)
    return total
