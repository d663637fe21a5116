SPECIFICATION SpecRot
CONSTANTS N = 4
          M = 256
          Bg = 4
          L = 3
          C = {130}
          LwC = {15, 16, 48, 127, 240, 255}
          Slip = "none"
INVARIANTS Rotation
CHECK_DEADLOCK FALSE
