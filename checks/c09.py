from vlib import tier
from enginemc import explore


def run(chk):
    explore(chk, tier(2000, 20000), Pasts=[1, 2, 3], Inputs=["t4", "t5"], Nets=["one"])
    explore(chk, tier(1500, 20000), Pasts=[0, 1, 2], Inputs=["t3"], Nets=["pair"], Orders=tier(["AF"], ["AF", "TF", "SY"]))
    traces = chk.driver("d_engine", {"focus": "C09", "n": tier(600, 6000)})
    chk.validate("EngineTrace", traces, ["C09."])
