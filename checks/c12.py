from vlib import tier


def run(chk):
    # networks as objects in a heap: what is recorded stays what it was, under all flags
    em = chk.model_check("RecordMC", 'CONSTANTS Steps = %d Moves = {"same", "edit", "fresh", "edit_fresh"} Copies = {TRUE, FALSE} Orders = {"AF", "TF", "SY"}' % tier(3, 4),
                         invariants=["NetworksFrozen", "ActivitiesFrozen", "CallersNetwork", "Compressed", "Dynamics"], emit="Emit")
    chk.replay("d_flags", em, tier(1500, 20000), ["seen", "acts", "nets"])
    traces = chk.driver("d_flags", {"n": tier(150, 1500), "variants": tier(4, 7)})
    chk.validate("FlagsTrace", traces, ["C12."])
