from vlib import tier
from enginemc import explore


def run(chk):
    explore(chk, tier(2500, 20000), Inputs=["t0", "t1", "t2", "l0", "l2", "f2"], Nets=["pair", "one"])
    explore(chk, tier(1500, 20000), Inputs=["t4", "f3"], Nets=["one"], Perts=[True], TopoRules=[True, False], Orders=tier(["AF"], ["AF", "TF", "SY"]))
    explore(chk, tier(1000, 20000), Inputs=["f2"], Nets=["one"], Life=["none", "birth", "self"])
    traces = chk.driver("d_engine", {"focus": "C08", "n": tier(600, 6000)})
    chk.validate("EngineTrace", traces, ["C08."])
