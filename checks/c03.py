from vlib import tier


def run(chk):
    for nodes, m, ws in tier([('{"i:0", "s:A"}', 3, "{0, 4, 6}"), ('{"i:2", "i:0", "s:x"}', 2, "{0, 8}")],
                             [('{"i:0", "s:A"}', 4, "{0, 4, 6}"), ('{"i:2", "i:0", "s:x"}', 3, "{0, 8}")]):
        em = chk.model_check("ConvertMC", "CONSTANTS Nodes = %s MaxEdges = %d Weights = %s" % (nodes, m, ws),
                             invariants=["Total", "OneOf", "NoParallel", "Support"], properties=["Local"], emit="Emit")
        for e in em:
            e["edges"] = [list(x) for x in e["edges"]]
        chk.replay("d_graphgen", [dict(e, edges=e["edges"]) for e in em], tier(4000, 40000), ["matrix"])
        for e in em:
            e["edges"].sort()
        chk.replay("d_graphgen", em, tier(1500, 20000), ["edges"])
    traces = chk.driver("d_graphgen", {"prop": "C03"})
    chk.validate("GraphGen", traces, ["C03."])
