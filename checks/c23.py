from vlib import tier


def run(chk):
    inv = ["OneDirection", "OnlyAdjacent", "DegreeBound", "FreeSite", "NeverDrops", "LayerLives", "GrownFromAlive", "RichPairsLinked", "Frozen"]
    for w, h in tier([(2, 1), (2, 2)], [(2, 1), (2, 2), (3, 1), (1, 3), (1, 4), (4, 1)]):
        chk.model_check("FungalMC", "CONSTANTS W = %d H = %d" % (w, h), invariants=inv)
    chk.validate("FungalTrace", chk.driver("d_fungal", {"n": tier(90, 1500)}), ["C23."])
