SPECIFICATION Spec
CONSTANTS Size = 12
 MaxVer = 12
INVARIANT NeverBroken OkMeansNew
PROPERTY Atomic
CHECK_DEADLOCK FALSE
