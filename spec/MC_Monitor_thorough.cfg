CONSTANTS PointLen = 3
Shown = 2
Bufs = 3
MaxBlocks = 4
Vals = {1, 2}
Lens = {1, 4}
Sigs = 2
SPECIFICATION Spec
INVARIANTS Conserved NoneLostWithRoom ShownIsPast Complete
PROPERTIES Forward Arrives
CHECK_DEADLOCK FALSE
