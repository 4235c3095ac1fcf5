SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 7
CHECK_DEADLOCK FALSE
