SPECIFICATION Spec
CONSTANTS W = 2 H = 2 Depth = 4 Full = FALSE Emit = FALSE Sim = FALSE
VIEW View
INVARIANT Inv
PROPERTY Steps
CHECK_DEADLOCK FALSE
