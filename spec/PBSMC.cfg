SPECIFICATION Spec
CONSTANTS M = 192
          N = 24
          Moduli = {1, 2, 3, 4}
          Reg = {1}
          E = 4
          W = 1
INVARIANTS Correct Refreshed
CHECK_DEADLOCK FALSE
