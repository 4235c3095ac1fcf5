SPECIFICATION Spec
CONSTANTS W = 2 H = 1 Depth = 3 Full = FALSE Emit = TRUE Sim = FALSE
INVARIANTS Inv EmitInv
CHECK_DEADLOCK FALSE
