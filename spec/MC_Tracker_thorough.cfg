SPECIFICATION Spec
CONSTANTS QMax = 3 Depth = 3 Emit = FALSE Sim = FALSE
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
