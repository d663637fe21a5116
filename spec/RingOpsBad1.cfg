SPECIFICATION SpecOne
CONSTANTS N = 2
          M = 256
          Bg = 4
          L = 3
          C = {0, 1, 61, 255}
          LwC = {0}
          Slip = "noflip"
INVARIANTS Extraction
CHECK_DEADLOCK FALSE
