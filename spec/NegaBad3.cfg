SPECIFICATION SpecInit
CONSTANTS N = 4
          Q = 17
          W = 2
          C = {0, 1, 5}
          Slip = "sign"
INVARIANTS RoundTrip Rotation Laws
CHECK_DEADLOCK FALSE
