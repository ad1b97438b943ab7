from vlib import tier


def run(chk):
    beh = chk.model_check("TSPMC", "CONSTANTS MaxN = %d" % tier(4, 5), invariants=["Cycle", "Permutation", "RotationInvariant", "EmitInit"])
    got = chk.driver("d_tsp", {"mode": "replay"}, scenarios=beh)
    for e, g in zip(beh, got):
        same = g["out"] == "ok" and g["conflict"] == e["conflict"] and g["edges"] == sorted(sorted(x) for x in e["edges"]) and \
            abs(g["length"] - e["length"]) <= len(e["M"]) + 1
        if not same:
            chk.violation("C28.tour_enumerated", {"tour": e, "got": g}, "the tour of a matrix differs from the specification: %s %s" % (e, g))
    chk.replayed += len(beh)
    chk.validate("TSPTrace", chk.driver("d_tsp", {"n": tier(200, 3000)}), ["C28."])
