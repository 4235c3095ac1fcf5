SPECIFICATION Spec
CONSTANTS Size = 4
 MaxVer = 5
INVARIANT NeverBroken OkMeansNew
PROPERTY Atomic
CHECK_DEADLOCK FALSE
