SPECIFICATION Spec
CONSTANTS QMax = 64
INVARIANT Ok
CHECK_DEADLOCK FALSE
