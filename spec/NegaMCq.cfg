SPECIFICATION Spec
CONSTANTS N = 2
          Q = 5
          W = 2
          C = {1, 3}
          Slip = "none"
INVARIANTS RoundTrip Rotation Laws
CONSTRAINT Short
CHECK_DEADLOCK FALSE
