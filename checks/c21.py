from vlib import tier

INV = ["Conservation", "NonNegative", "StableStays"]


def run(chk):
    for rows, cols, heights, closed, steps, drops in tier(
            [(3, 3, "{3, 5}", "FALSE", 2, "{0, 5}"), (3, 3, "{3, 5}", "TRUE", 2, "{0, 1, 5}"), (3, 4, "{3, 4}", "TRUE", 1, "{0}"), (4, 3, "{0, 9}", "FALSE", 1, "{0}")],
            [(3, 3, "{0, 3, 6}", "FALSE", 2, "{0, 5}"), (3, 3, "{0, 3, 6}", "TRUE", 2, "{0, 1, 5}"), (3, 4, "{3, 4}", "TRUE", 3, "{0, 6}"),
             (4, 3, "{0, 9}", "FALSE", 3, "{0, 2}"), (4, 4, "{3, 4}", "TRUE", 1, "{0}"), (4, 4, "{0, 7}", "FALSE", 1, "{0}")]):
        em = chk.model_check("SandpileMC", "CONSTANTS Rows = %d Cols = %d Heights = %s Closed = %s Steps = %d Drops = %s" % (rows, cols, heights, closed, steps, drops), invariants=INV, emit="Emit")
        chk.replay("d_sandpile", em, tier(250, 4000), ["hist"])
    chk.model_check("SandpileLive", "CONSTANTS Rows = %d Cols = 4 Heights = {0, 5}" % tier(3, 4), properties=["Settles"])
    chk.validate("SandpileTrace", chk.driver("d_sandpile", {"n": tier(500, 6000)}), ["C21."])
