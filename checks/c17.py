from vlib import tier


def run(chk):
    em = chk.model_check("TuringMC", "CONSTANTS States = {0, 1} Symbols = {0, 1} N = 3 Steps = %d Terms = {%s}" % (tier(3, 4), tier("1", "9, 1")),
                         invariants=["OneCell", "Deterministic", "StuckIff", "DoneIff"], emit="Emit")
    for e in em:
        cfgs = [[h["tape"], h["pos"], [[h["pos"], str(h["q"])]]] for h in e["hist"]]
        e["tape"] = e["head"] = [True] if e["status"] == "missing" else [False] + cfgs
    chk.replay("d_turing", em, tier(1500, 20000), ["tape", "head"])
    chk.validate("TuringTrace", chk.driver("d_turing", {"n": tier(900, 10000)}), ["C17."])
