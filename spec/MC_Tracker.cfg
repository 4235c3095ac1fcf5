SPECIFICATION Spec
CONSTANTS QMax = 2 Depth = 2 Emit = FALSE Sim = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
