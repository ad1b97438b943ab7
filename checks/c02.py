import random
from vlib import tier, SEED


def empty_objs(x):
    return {} if x == [] else x


def norm(g):
    return dict(g, na={k: empty_objs(v) for k, v in empty_objs(g["na"]).items()}, din=empty_objs(g["din"]), dout=empty_objs(g["dout"]),
                inc={k: [[s, [empty_objs(a) for a in es]] for s, es in v] for k, v in empty_objs(g["inc"]).items()})


def run(chk):
    # every small history: build, copy, edit either side
    for before, after in tier([(2, 1), (1, 2)], [(3, 1), (2, 2)]):
        em = chk.model_check("CopyMC", 'CONSTANTS Labels = {"i:0", "s:A"} Before = %d After = %d' % (before, after), invariants=["Sound"],
                             properties=["OneSide"], emit="Emit", view="View_", workers=1)
        limit = tier(6000, 60000)
        if len(em) > limit:
            em = random.Random(SEED).sample(em, limit)
        for e, g in zip(em, chk.driver("d_copy", {"mode": "replay"}, scenarios=[{"h": e["h"]} for e in em])):
            for side in ("o", "c"):
                if g["out"] != "ok" or g[side] != norm(e[side]):
                    chk.violation("C02.replay." + side, {"history": e, "got": g},
                                  "after %s the %s is not the specified network" % ([(x["side"], x["op"]) for x in e["h"]], {"o": "original", "c": "copy"}[side]))
        chk.replayed += len(em)
    traces = chk.driver("d_copy", {"n": tier(400, 6000)})
    chk.validate("CopyTrace", traces, ["C02."])
