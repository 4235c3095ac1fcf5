SPECIFICATION Spec
CONSTANTS N = 5
          MaxBlk = 3
          Delay = 3
          Runs = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
