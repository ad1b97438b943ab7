from vlib import tier
from enginemc import explore


def run(chk):
    explore(chk, tier(2500, 30000), Perts=[True], PertVals=["=", "i:5"], Inputs=["t2"], Nets=["pair", "chain", "one"], Orders=["AF", "TF", "SY"])
    explore(chk, tier(2500, 30000), Perts=[True], PertVals=["=", "i:1"], Inputs=["t3"], Memos=["bag", "ordered", "cur_ordered"], Nets=tier(["pairrot"], ["pair", "pairrot"]))
    explore(chk, tier(1500, 20000), Perts=[True], PertVals=["i:5"], Life=["none", "self", "other"], Inputs=tier(["t2"], ["t3"]), Nets=["pair"], Vals=["i:1"])
    traces = chk.driver("d_engine", {"focus": "C10", "n": tier(600, 6000)})
    chk.validate("EngineTrace", traces, ["C10.", "REC.activities"] + [
        (c, lambda t: t["pert"]) for c in ("C06.activities", "C06.neighbourhood_activities", "C06.current_activity", "C07.topology_activities")])
