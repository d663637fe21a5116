SPECIFICATION SpecOne
CONSTANTS N = 2
          M = 256
          Bg = 4
          L = 3
          C = {0, 1, 2, 61, 127, 128, 255}
          LwC = {0}
          Slip = "none"
INVARIANTS Extraction Digits External
CHECK_DEADLOCK FALSE
