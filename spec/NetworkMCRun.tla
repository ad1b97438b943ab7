---------------------------- MODULE NetworkMCRun ----------------------------
EXTENDS NetworkMC
AttrSet == {EmptyFn, [w |-> "i:1"]}
=============================================================================
