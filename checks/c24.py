import random
from vlib import tier, SEED, MachineryError


def run(chk):
    ends = {}
    for k, n, t in tier([(2, 1, 4), (3, 1, 3)], [(2, 1, 6), (3, 1, 6), (4, 1, 4)]):
        for e in chk.model_check("RuleTableMC", "CONSTANTS K = %d N = %d Targets = %d" % (k, n, t),
                                 invariants=["KeepsFlags", "Terminates", "EndsRight", "Monotone"], emit="Emit"):
            key = tuple((x, str(e[x])) for x in ("k", "n", "T0", "q", "tn", "td", "strong", "iso"))
            ends.setdefault(key, (e, []))[1].append(e["F"])
    for e in chk.model_check("RuleTableMC", "CONSTANTS K = 2 N = 3 Targets = %d" % tier(2, 4),
                             invariants=["KeepsFlags", "Terminates", "EndsRight", "Monotone"], emit="Emit"):
        key = tuple((x, str(e[x])) for x in ("k", "n", "T0", "q", "tn", "td", "strong", "iso"))
        ends.setdefault(key, (e, []))[1].append(e["F"])
    # where the real walk ends must be among the ends the specification enumerates
    starts = [dict(e, times=tier(6, 20)) for e, _ in ends.values()]
    if len(starts) > tier(3000, 40000):
        starts = random.Random(SEED).sample(starts, tier(3000, 40000))
    for s, g in zip(starts, chk.driver("d_tables", {"mode": "replay"}, scenarios=starts)):
        key = tuple((x, str(s[x])) for x in ("k", "n", "T0", "q", "tn", "td", "strong", "iso"))
        if g["out"] != "ok" or any(f not in ends[key][1] for f in g["F"]):
            chk.violation("C24.walk_end", {"start": s, "got": g}, "a walk ended where no walk of the specification ends: %s" % g)
    chk.replayed += len(starts)
    chk.validate("RuleTableTrace", chk.driver("d_tables", {"n": tier(300, 4000)}), ["C24."])
