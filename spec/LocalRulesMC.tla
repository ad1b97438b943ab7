---------------------------- MODULE LocalRulesMC ----------------------------
(* Every entry of the tables: all elementary rules, totalistic rules of two and three colours, the Game of
   Life for every neighbourhood, Wireworld for every neighbourhood over a ring of cells. *)
EXTENDS LocalRules, Json
CONSTANTS MaxElem, MaxTot, NWire
VARIABLES kind, number, k, nb, cur, out, phase
vars == <<kind, number, k, nb, cur, out, phase>>
Mid(s) == s[(Len(s) + 1) \div 2]
Init == /\ phase = "in" /\ out = 0
        /\ \/ /\ kind \in {"nks", "bin"} /\ number \in 0..MaxElem /\ k = 2 /\ nb \in [1..3 -> {0, 1}] /\ cur = nb[2]
           \/ /\ kind = "tot" /\ k \in {2, 3} /\ number \in 0..MaxTot /\ nb \in [1..3 -> 0..(k - 1)] /\ cur = nb[2]
           \/ /\ kind = "life" /\ number = 0 /\ k = 2 /\ nb \in [1..9 -> {0, 1}] /\ cur = nb[5]
           \/ /\ kind = "wire" /\ number = 0 /\ k = 4 /\ nb \in [1..NWire -> 0..3] /\ cur = nb[(NWire + 1) \div 2]
           \/ /\ kind = "conv" /\ number \in 0..MaxTot /\ k = 12 /\ nb = <<>> /\ cur = 0
InRange == kind # "tot" \/ TotInRange(Number(number), k, 3)
Value == CASE kind = "nks" -> NksRule(Number(number), nb) [] kind = "bin" -> BinRule(Number(number), nb)
           [] kind = "tot" -> IF InRange THEN TotRule(Number(number), k, nb) ELSE -1
           [] kind = "life" -> Life(cur, nb) [] kind = "wire" -> Wire(cur, nb)
           [] kind = "conv" -> number
Next == phase = "in" /\ phase' = "out" /\ out' = Value /\ UNCHANGED <<kind, number, k, nb, cur>>
Spec == Init /\ [][Next]_vars
\* sanity of the tables
RangeOk == phase = "out" => (out \in 0..(k - 1) \/ kind = "conv" \/ (kind = "tot" /\ out = -1 /\ number >= Pow(k, 3 * (k - 1) + 1)))
\* the two orders mirror each other
Mirror == kind = "nks" => NksRule(Number(number), nb) = BinRule(Number(BinVal([x \in 1..8 |-> Bit(Number(number), x - 1)])), nb)
Totalistic == kind = "tot" => \A p \in {<<2, 1, 3>>, <<3, 1, 2>>} : InRange => TotRule(Number(number), k, nb) = TotRule(Number(number), k, [x \in 1..3 |-> nb[p[x]]])
Inverse == kind = "conv" => BinVal([x \in 1..12 |-> Bit(Number(number), 12 - x)]) = number
Arithmetic == kind = "conv" => \A d \in {2, 3, 7} : DivMod(Number(number), d).r = number % d /\ Strip(DivMod(Number(number), d).q) = Strip(Number(number \div d))
\* a live cell in life never survives in a crowd or alone; Wireworld's cycle
LifeOk == (kind = "life" /\ phase = "out" /\ out = 1) => SumSeq(nb) \in {3, 4}
WireOk == (kind = "wire" /\ phase = "out") => ((cur = 0) = (out = 0)) /\ (cur = 1 => out = 2) /\ (out = 1 => cur = 3 /\ 1 \in Range(nb))
Emit == PrintT("@@" \o ToJson([kind |-> kind, number |-> number, k |-> k, nb |-> nb, cur |-> cur, val |-> out']))
=============================================================================
