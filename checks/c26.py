from vlib import tier


def run(chk):
    beh = chk.model_check("TurtleMC", "CONSTANTS MaxLen = %d" % tier(5, 7), invariants=["OneSegPerMove", "Balance", "Connected", "Lengths"],
                          properties=["PopRestores", "SegsOnlyGrow"], emit="Emit")
    chk.replay("d_turtle", beh, tier(2000, 40000), ["x", "y", "segs"])
    chk.validate("TurtleTrace", chk.driver("d_turtle", {"n": tier(400, 6000)}), ["C26."])
