from vlib import tier


def run(chk):
    # the invariant prints each enumerated case, with the answer of the specification
    beh = chk.model_check("HelpersMC", "CONSTANTS MaxSize = %d" % tier(7, 12), invariants=["EmitInit"])
    chk.replay("d_helpers", beh, tier(1000, 5000), ["answer"])
    chk.validate("HelpersTrace", chk.driver("d_helpers", {"n": tier(300, 5000)}), ["C27."])
