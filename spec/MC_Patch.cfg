SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANT RoundTrip InBounds
PROPERTY Frame
CHECK_DEADLOCK FALSE
