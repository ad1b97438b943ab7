from vlib import tier


def run(chk):
    em = chk.model_check("LocalRulesMC", "CONSTANTS MaxElem = 255 MaxTot = %d NWire = %d" % (tier(130, 2500), tier(3, 5)),
                         invariants=["RangeOk", "Mirror", "Totalistic", "Inverse", "Arithmetic", "LifeOk", "WireOk"], emit="Emit")
    chk.replay("d_rules", em, 200000, ["val"])
    chk.validate("LocalRulesTrace", chk.driver("d_rules", {"n": tier(700, 6000)}), ["C20."])
