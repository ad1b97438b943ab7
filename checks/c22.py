from vlib import tier


def run(chk):
    inv = ["Symmetric", "EnergyDescends", "Progress", "SettledStays", "OnePattern"]
    seen = {}
    for n, m in tier([(1, 2), (2, 2), (3, 2)], [(1, 3), (2, 3), (3, 3), (4, 2)]):
        for e in chk.model_check("HopfieldMC", "CONSTANTS N = %d MaxP = %d" % (n, m), invariants=inv, emit="EmitTraining"):
            e["edges"] = sorted([i, j, w] for i, r in enumerate(e["W"]) for j, w in enumerate(r) if w)
            seen[str(e["P"])] = e
    # with every node updated again and again, recall comes to rest
    chk.model_check("HopfieldLive", "CONSTANTS N = %d MaxP = 2" % tier(2, 3), properties=["Settles"])
    chk.replay("d_hopfield", list(seen.values()), tier(500, 5000), ["W", "edges"])
    chk.validate("HopfieldTrace", chk.driver("d_hopfield", {"n": tier(500, 6000)}), ["C22."])
