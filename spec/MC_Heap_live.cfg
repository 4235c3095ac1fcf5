SPECIFICATION Fair
CONSTANTS NS = 2
          NI = 2
          QCap = 2
          DCap = 2
          Ops = 3
INVARIANTS NeverOnAudio NoLeak Agree
CHECK_DEADLOCK FALSE
PROPERTY Arrives
