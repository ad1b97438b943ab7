----------------------------- MODULE Reversible -----------------------------
(* The reversible wrapper: next = f(current) XOR previous, node by node, over states 0 and 1. *)
EXTENDS SeqUtil
Xor(a, b) == (a + b) % 2
RevStep(res, past) == [n \in DOMAIN res |-> Xor(res[n], past[n])]
=============================================================================
