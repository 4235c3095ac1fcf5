SPECIFICATION Spec
CONSTANTS Depth = 3
VIEW View
INVARIANT Inv
PROPERTY Steps
CHECK_DEADLOCK FALSE
