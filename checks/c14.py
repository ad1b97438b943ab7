from vlib import tier, SEED
import random


def explore(chk, limit, **kw):
    d = dict(W=1, MaxProd=2, MaxAxiom=3, Steps=3, MaxLen=30)
    d.update(kw)
    em = chk.model_check("SubstitutionMC", 'CONSTANTS Alphabet = {"A", "B"} ' + " ".join("%s = %s" % x for x in d.items()),
                         invariants=["LengthBound", "Homomorphism", "Identity"], emit="Emit")
    if len(em) > limit:
        em = random.Random(SEED).sample(em, limit)
    got = chk.driver("d_subst", {"mode": "replay"}, scenarios=em)
    for e, r in zip(em, got):
        for what, ok in (("failed", r["out"] == "ok"), ("strings", r["strings"] == e["strings"]), ("to_string", r["to_string"] == e["strings"])):
            if not ok:
                chk.violation("C14.replay." + what, {"run": e, "got": r}, "a run of the specification is not reproduced (%s): %s" % (what, e["rules"]))
    chk.replayed += len(em)


def run(chk):
    explore(chk, tier(700, 10000))
    explore(chk, tier(1500, 20000), W=2, MaxProd=tier(1, 2), MaxAxiom=tier(3, 4))
    if tier(0, 1):
        explore(chk, 20000, W=3, MaxProd=1, MaxAxiom=4, Steps=2)
    traces = chk.driver("d_subst", {"n": tier(500, 6000)})
    chk.validate("SubstitutionTrace", traces, ["C14."])
