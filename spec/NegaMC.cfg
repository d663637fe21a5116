SPECIFICATION Spec
CONSTANTS N = 2
          Q = 5
          W = 2
          C = {0, 1, 2, 3, 4}
          Slip = "none"
INVARIANTS RoundTrip Rotation Laws
CHECK_DEADLOCK FALSE
