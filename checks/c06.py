from vlib import tier
from enginemc import explore


def run(chk):
    # the engine specification, exhaustively at small constants; its complete behaviours are replayed on evolve()
    explore(chk, tier(1500, 20000), Nets=["pair", "pairrot", "one"], Inputs=tier(["t3"], ["t3", "t4"]), Orders=tier(["AF"], ["AF", "TF", "SY"]))
    explore(chk, tier(1500, 20000), Nets=["chain"], Inputs=tier(["t2"], ["t3"]), Orders=["AF", "TF", "SY"])
    traces = chk.driver("d_engine", {"focus": "C06", "n": tier(600, 6000)})
    chk.validate("EngineTrace", traces, ["C06.", "REC.activities"])
