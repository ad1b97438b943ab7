from vlib import tier


def empty_objs(x):
    """TLC prints the empty function as an empty array."""
    return {} if x == [] else x


def norm(e):
    return {"nodes": e["nodes"], "na": {k: empty_objs(v) for k, v in empty_objs(e["na"]).items()},
            "inc": {k: [[s, [empty_objs(a) for a in es]] for s, es in v] for k, v in empty_objs(e["inc"]).items()},
            "din": empty_objs(e["din"]), "dout": empty_objs(e["dout"]), "ok": e["ok"]}


def run(chk):
    # the specification, exhaustively at small constants; every transition becomes a test of the code
    em = chk.model_check("NetworkMCRun", 'CONSTANTS Labels = {"i:0", "s:A", "i:7"} Depth = %d MaxPar = 2' % tier(3, 3) + "\nCONSTANT Attrs <- AttrSet",
                         invariants=["Inv", "NoTrace"], properties=["Frame"], emit="Emit", view="TheView", workers=1)
    scns = [{"h": e["h"]} for e in em]
    got = chk.driver("d_network", {"mode": "replay"}, scenarios=scns)
    for e, r in zip(em, got):
        exp = norm(e)
        if r != exp:
            diff = [k for k in exp if r.get(k) != exp[k]]
            chk.violation("C01.replay." + "+".join(diff), {"history": e["h"], "expected": exp, "got": r},
                          "after %s the real network differs from the specification in %s" % (e["h"], diff))
    chk.replayed += len(em)
    # recorded random histories, validated against the same operations
    traces = chk.driver("d_network")
    chk.validate("NetworkTrace", traces, ["C01."])
