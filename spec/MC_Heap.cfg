SPECIFICATION Spec
CONSTANTS NS = 2
          NI = 2
          QCap = 2
          DCap = 3
          Ops = 4
INVARIANTS NeverOnAudio NoLeak Agree
CHECK_DEADLOCK FALSE
