import random
from vlib import tier, SEED


def run(chk):
    inv = ["Bounds", "Certain", "JointBounds", "Symmetric", "Self", "Renaming", "Reordering"]
    beh = []
    for n, a in tier([(5, 2), (4, 3)], [(7, 2), (5, 3), (4, 4)]):
        beh += chk.model_check("InformationMC", "CONSTANTS MaxN = %d Alphabet = %d" % (n, a), invariants=inv, emit="Emit")
    # the real measures of every enumerated pair are those of the specification, up to the rounding of its logarithms
    beh = random.Random(SEED).sample(beh, min(len(beh), tier(3000, 40000)))
    for e, g in zip(beh, chk.driver("d_info", {"mode": "replay"}, scenarios=beh)):
        for w in ("h", "j", "mi"):
            if g["out"] != "ok" or abs(g[w] - e[w]) > 2 * len(e["x"]) + 4:
                chk.violation("C25.enumerated." + w, {"pair": e, "got": g}, "measure %s of %s differs: %s" % (w, e, g))
    chk.replayed += len(beh)
    chk.validate("InformationTrace", chk.driver("d_info", {"n": tier(400, 6000)}), ["C25."])
