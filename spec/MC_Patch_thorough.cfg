SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANT RoundTrip InBounds
PROPERTY Frame
CHECK_DEADLOCK FALSE
