----------------------------- MODULE CTRBLMCRun -----------------------------
EXTENDS CTRBLMC
LinQ == {<<1, 0, 1, 0, 0>>, <<0, 1, 0, 0, 1>>, <<0, 1, 1, 1, 1>>}
LinT == [1..5 -> {0, 1}]
QuadQ == {<<1, 2>>, <<2, 5>>}
QuadT == {<<1, 2>>, <<2, 5>>, <<3, 3>>, <<4, 2>>}
=============================================================================
