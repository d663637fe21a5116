SPECIFICATION Spec
CONSTANTS M = 64
          E = 2
          W = 1
          Reg = {1, 2}
INVARIANTS TypeOK Correct Bounded
CHECK_DEADLOCK FALSE
