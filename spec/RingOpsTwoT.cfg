SPECIFICATION SpecTwo
CONSTANTS N = 2
          M = 256
          Bg = 4
          L = 3
          C = {0, 127, 254}
          LwC = {0}
          Slip = "none"
INVARIANTS Selection
CHECK_DEADLOCK FALSE
