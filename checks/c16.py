from vlib import tier


def run(chk):
    em = chk.model_check("ReversibleMC", "CONSTANTS N = 3 Steps = 3 Rules = %s" % tier("{0, 22, 30, 45, 90, 110, 122, 150, 184, 201, 214, 255}", "{%s}" % ", ".join(map(str, range(256)))),
                         invariants=["Retraces", "Invertible"], emit="Emit")
    if tier(0, 1):
        em += chk.model_check("ReversibleMC", "CONSTANTS N = 4 Steps = 4 Rules = {%s}" % ", ".join(map(str, range(0, 256, 3))),
                              invariants=["Retraces", "Invertible"], emit="Emit")
    for e in em:
        e["back"] = e["hist"]
    chk.replay("d_revers", em, tier(500, 10000), ["hist", "back"])
    chk.validate("ReversibleTrace", chk.driver("d_revers", {"n": tier(500, 6000)}), ["C16."])
