SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 6
CHECK_DEADLOCK FALSE
