from vlib import tier


def run(chk):
    em = chk.model_check("TopologyMC", "CONSTANTS MaxN = %d MaxSide = %d MaxR = %d" % tier((16, 6, 3), (30, 10, 4)),
                         invariants=["Sizes", "Mutual", "Alike", "Centre", "Nested", "EmitInit"])
    for e in em:
        e["sets"] = e["rots"] = [sorted(x) for x in e["sets"]]
        e["centres"] = list(range(len(e["sets"])))
    chk.replay("d_graphgen", em, 5000, ["sets", "rots", "hoods", "centres"])
    traces = chk.driver("d_graphgen", {"prop": "C04"})
    chk.validate("GraphGen", traces, ["C04."])
