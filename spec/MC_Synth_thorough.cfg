SPECIFICATION Spec
CONSTANTS Depth = 4
VIEW View
INVARIANT Inv
PROPERTY Steps
CHECK_DEADLOCK FALSE
