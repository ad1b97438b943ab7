from vlib import tier


def run(chk):
    inv = ["Translation", "Rotation", "Geometry"]
    lin = tier("{<<1, 0, 1, 0, 0>>, <<0, 1, 0, 0, 1>>, <<0, 1, 1, 1, 1>>}", "[1..5 -> {0, 1}]")
    em = chk.model_check("CTRBLMCRun", "CONSTANTS Rows = 3 Cols = 3 Steps = 1 Linear <- Lin%s Quads <- Quad%s" % (("Q", "Q") if tier(1, 0) else ("T", "T")), invariants=inv, emit="Emit")
    em2 = chk.model_check("CTRBLMCRun", "CONSTANTS Rows = 3 Cols = 4 Steps = %d Linear <- LinQ Quads <- QuadQ" % tier(1, 2), invariants=["Translation", "Geometry"], emit="Emit") if tier(0, 1) else []
    chk.replay("d_ctrbl", em, tier(300, 4000), ["hist"])
    if em2:
        chk.replay("d_ctrbl", em2, 4000, ["hist"])
    steps = tier(40, 151)
    rows, cols = tier((18, 30), (22, 32))
    em = chk.model_check("LangtonMC", "CONSTANTS Rows = %d Cols = %d Row = 7 Col = 2 Steps = %d" % (rows, cols, steps), invariants=["SelfReproduction", "Known"], emit="Emit", workers=1)
    em = sorted(em, key=lambda e: e["t"])
    got = chk.driver("d_ctrbl", {"mode": "replay"}, scenarios=[{"g": 1, "rows": rows, "cols": cols, "loops": [[7, 2]], "steps": steps + 1}])[0]
    if got["out"] != "ok" or got["g"][1:] != [e["g"] for e in em]:
        chk.violation("C19.langton", {"got": got["out"], "first_difference": next((k for k, (a, e) in enumerate(zip(got["g"][1:], em)) if a != e["g"]), None)},
                      "the run of Langton's loop is not the specified one")
    chk.replayed += 1
    chk.validate("CTRBLTrace", chk.driver("d_ctrbl", {"n": tier(400, 4000), "langton": tier(6, 30)}), ["C19."])
