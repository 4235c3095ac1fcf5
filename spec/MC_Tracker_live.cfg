SPECIFICATION FairSpec
CONSTANTS QMax = 2 Depth = 1 Emit = FALSE Sim = FALSE
INVARIANT Inv
PROPERTY Settles
CHECK_DEADLOCK FALSE
