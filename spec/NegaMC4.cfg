SPECIFICATION SpecInit
CONSTANTS N = 4
          Q = 17
          W = 2
          C = {0, 1, 16, 7}
          Slip = "none"
INVARIANTS Products Rotation Laws
CHECK_DEADLOCK FALSE
