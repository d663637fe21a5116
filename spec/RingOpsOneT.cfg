SPECIFICATION SpecOne
CONSTANTS N = 4
          M = 256
          Bg = 4
          L = 3
          C = {130, 255}
          LwC = {0}
          Slip = "none"
INVARIANTS Extraction External
CHECK_DEADLOCK FALSE
