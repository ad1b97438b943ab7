from vlib import tier, SEED
import random


def run(chk):
    em = chk.model_check("WolframMC", "CONSTANTS MaxRels = %d Steps = 3 NRules = 10 From = 1" % tier(2, 3),
                         invariants=["Conserved", "GroupsFit", "Agrees", "StepsOk"], emit="Emit")
    limit = tier(1000, 20000)
    if len(em) > limit:
        em = random.Random(SEED).sample(em, limit)
    # the order of the kept relations and the numbering of new labels are left open, so the replayed runs are
    # judged by the trace specification rather than by equality
    scns = [{"fam": "replay", "seed": 0, "lhs": e["lhs"], "rhs": e["rhs"], "config": e["configs"][0], "steps": len(e["configs"]), "flags": {}} for e in em]
    for k in range(0, len(scns), 5000):
        chk.validate("WolframTrace", chk.driver("d_wolfram", {"replay": k}, scenarios=scns[k:k + 5000]), ["C18."])
    chk.replayed += len(em)
    chk.validate("WolframTrace", chk.driver("d_wolfram", {"n": tier(500, 6000)}), ["C18."])
