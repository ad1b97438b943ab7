from vlib import tier
from enginemc import explore


def run(chk):
    explore(chk, tier(2000, 30000), Nets=["pair", "pairrot"], Memos=["ordered", "bag", "cur_ordered", "label_ordered", "first"], Inputs=["t4"])
    explore(chk, tier(2000, 30000), Nets=["chain"], Memos=["bag", "cur_ordered"], Inputs=tier(["t3"], ["t4"]), Orders=tier(["AF"], ["AF", "TF", "SY"]))
    explore(chk, tier(1000, 30000), Nets=["pair"], Memos=["bag", "first"], Inputs=["t3"], TopoRules=[True], TopoMoves=["add", "cut"], Orders=["AF", "TF", "SY"])
    traces = chk.driver("d_engine", {"focus": "C11", "n": tier(600, 6000)})
    chk.validate("EngineTrace", traces, ["C11.", "REC.activities"])
