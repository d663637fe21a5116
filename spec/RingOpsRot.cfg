SPECIFICATION SpecRot
CONSTANTS N = 2
          M = 256
          Bg = 4
          L = 3
          C = {1, 128}
          LwC = {0, 31, 224}
          Slip = "none"
INVARIANTS Rotation
CHECK_DEADLOCK FALSE
