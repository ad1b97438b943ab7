from vlib import tier


def run(chk):
    beh = []
    for m, l, e in tier([(2, 3, 2), (3, 2, 2)], [(2, 3, 3), (3, 2, 3), (3, 3, 2)]):
        beh += chk.model_check("DrawingMC", "CONSTANTS MaxRel = %d MaxLen = %d Elems = %d" % (m, l, e), invariants=["EdgeCount", "Ends", "Order"], emit="Emit")
    for b in beh:
        b["nodes"] = b["pnodes"] = sorted(b["nodes"])
        b["edges"] = b["pedges"] = sorted(b["edges"])
    chk.replay("d_drawing", beh, tier(500, 5000), ["nodes", "edges", "pnodes", "pedges"])
    chk.validate("DrawingTrace", chk.driver("d_drawing", {"n": tier(300, 4000)}), ["C29."])
