TV = "TLA+ specification (TLC): "
REP = "exhaustive TLC exploration with replay of the emitted behaviours on the real code, and trace validation of recorded runs"
VAL = "trace validation of recorded runs against the specification"
TRUST = ("Bounded: exhaustive within the constants of the model, sampled (seeded) beyond them. Trusts TLC, the JSON projection of "
         "the recorded values, and the drivers, which record and judge nothing.")
LEVELS = {"C%02d" % i: (TV + REP, TRUST) for i in range(1, 41)}
LEVELS["C23"] = (TV + "exhaustive TLC exploration of the growth model, and " + VAL, TRUST)
