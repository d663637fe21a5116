SPECIFICATION Spec
CONSTANTS W = 6
          Slip = "none"
INVARIANTS Partial RoundTrip
CHECK_DEADLOCK FALSE
