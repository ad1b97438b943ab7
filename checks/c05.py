from vlib import tier


def run(chk):
    em = chk.model_check("GeneratorMC", "CONSTANTS MaxDim = %d MaxDims = 3 MaxCells = %d MaxN = %d Firsts = {0, 5}" % tier((4, 27, 10), (5, 64, 16)),
                         invariants=["Symmetric", "Counts", "NoLoops", "Regular", "Connected", "EmitInit"])
    for e in em:
        e["pairs"] = sorted(e["pairs"])
    chk.replay("d_graphgen", em, 5000, ["pairs", "n"])
    traces = chk.driver("d_graphgen", {"prop": "C05"})
    chk.validate("GraphGen", traces, ["C05."])
