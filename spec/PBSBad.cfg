SPECIFICATION Spec
CONSTANTS M = 192
          N = 24
          Moduli = {1, 2, 3, 4}
          Reg = {1, 2}
          E = 4
          W = 3
INVARIANTS Correct Refreshed
CHECK_DEADLOCK FALSE
