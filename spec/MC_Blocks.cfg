SPECIFICATION Spec
CONSTANTS Depth = 3 W = 1 H = 2 TypeSet = {"->2", "if", "value"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
