from vlib import tier

INV = ["OnePerStep", "OthersKeep", "FollowsOrder", "CleanAtSweep"]


def run(chk):
    n = tier("{0, 1, 2, 3}", "{0, 1, 2, 3, 4}")
    em = chk.model_check("AsyncMC", "CONSTANTS Labels = %s Steps = %d K = 3 Shuffle = FALSE" % (n, tier(7, 9)), invariants=INV, emit="Emit")
    chk.model_check("AsyncMC", "CONSTANTS Labels = {0, 1, 2} Steps = %d K = 2 Shuffle = TRUE" % tier(2, 4), invariants=INV)
    chk.replay("d_async", em, tier(1600, 10000), ["acts", "ran"])
    chk.validate("AsyncTrace", chk.driver("d_async", {"n": tier(900, 8000)}), ["C15."])
