SPECIFICATION Spec
CONSTANTS M = 480
          N = 60
          Moduli = {3, 4, 5}
          Reg = {1}
          E = 8
          W = 2
INVARIANTS Correct Refreshed
CHECK_DEADLOCK FALSE
