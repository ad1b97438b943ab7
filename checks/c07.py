from vlib import tier
from enginemc import explore


def run(chk):
    explore(chk, tier(2500, 40000), Orders=["AF", "TF", "SY"], TopoRules=[True], TopoMoves=["id", "add", "cut", "drop"],
            Inputs=tier(["t2", "t3"], ["t2", "t3", "t4"]), Vals=tier(["i:0", "i:1"], ["i:0", "i:1"]), Nets=tier(["pair"], ["pair", "one"]))
    traces = chk.driver("d_engine", {"focus": "C07", "n": tier(600, 6000)})
    chk.validate("EngineTrace", traces, ["C07.", "REC.network"] + [
        (c, lambda t: t["topo"]) for c in ("REC.activities", "C06.connection_states", "C06.neighbour", "C06.activities", "C06.current", "C06.unknown_neighbour",
                                           "C06.unexpected_node", "C06.node_skipped")])
