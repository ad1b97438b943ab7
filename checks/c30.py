import random
from vlib import tier, SEED, norm

INV = ["GridWhole", "FramesGrow", "Chained", "FewBranches", "Handshake", "HexTouch", "HexApart", "EmitInit"]


def run(chk):
    em = chk.model_check("PlotsMC", "CONSTANTS MaxT = %d MaxN = %d MaxV = 1 MaxSide = %d MaxEdges = %d" % tier((2, 4, 6, 3), (3, 4, 9, 4)), invariants=INV)
    by = {}
    for e in em:
        by.setdefault(e["c"]["kind"], []).append(e)
    em = [e for k in sorted(by) for e in random.Random(SEED).sample(by[k], min(len(by[k]), tier(150, 2500)))]
    for e, g in zip(em, chk.driver("d_plots", {"mode": "replay"}, scenarios=em, timeout=800)):
        o = g["o"]
        if "hexes" in o:
            o["centres"] = [x[:2] for x in o["hexes"]]
        if "frames" in o:
            # one whole cycle, turned to begin with the first frame
            n, want = len(e["c"]["rows"]), e["o"]["cycle"]
            turns = [o["frames"][k:k + n] for k in range(n)]
            o["cycle"] = next((t for t in turns if norm(t) == norm(want)), turns[0])
        for k in e["o"]:
            # (the order in which points, bars and hexagons are drawn does not show)
            view = {"pts": lambda v: sorted(p for s in v for p in s), "bars": lambda v: sorted(b for b in v if b[1]), "centres": sorted}.get(k, lambda v: v)
            same = g["out"] == "ok" and norm(view(o[k])) == norm(view(e["o"][k]))
            if not same:
                chk.violation("C30.replay." + e["c"]["kind"], {"run": e, "got": g}, "a plot does not show what the specification gives (%s, %s): %s" % (k, g["out"], e["c"]))
    chk.replayed += len(em)
    chk.validate("PlotsTrace", chk.driver("d_plots", {"n": tier(600, 8000)}, timeout=800), ["C30."])
