SPECIFICATION Spec
CONSTANTS Depth = 2
          NFrames = 4
          NEv = 2
          MaxInj <- SmallInj
          MaxNotes <- SmallNotes
          MaxCCs <- SmallCCs
          MaxReport <- SmallReport
          MaxBlock <- SmallBlock
VIEW View
INVARIANT Inv
PROPERTY Steps
CHECK_DEADLOCK FALSE
