from vlib import tier
from enginemc import explore


def run(chk):
    explore(chk, tier(3000, 60000), Life=["none", "self", "other", "birth", "rebirth", "both"], Vals=["i:1"], Inputs=tier(["t2"], ["t2", "t3"]), Nets=tier(["pair", "chain", "one"], ["pair", "one"]))
    explore(chk, tier(2000, 30000), Life=["none", "self", "both"], Vals=["i:1"], Inputs=tier(["t2"], ["t3"]), TopoRules=[True], TopoMoves=["id", "add"], Nets=["pair"])
    explore(chk, tier(2000, 30000), Life=["none", "twins", "link"], Vals=["i:1"], Inputs=tier(["t2"], ["t2", "t3"]), Nets=["pair", "chain", "one"])
    traces = chk.driver("d_engine", {"focus": "C13", "n": tier(600, 6000)})
    chk.validate("EngineTrace", traces, ["C13.", "C06.node_skipped", "C06.unexpected_node", "REC.", "C06.connection_states", "C06.neighbour", "C06.activities", "C06.current", "C06.unknown_neighbour", "C07.topology_"])
