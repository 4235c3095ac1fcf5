SPECIFICATION Spec
CONSTANTS W = 3 H = 3 Depth = 40 Full = TRUE Emit = TRUE Sim = TRUE
INVARIANTS Inv EmitInv
CHECK_DEADLOCK FALSE
