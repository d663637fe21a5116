SPECIFICATION Spec
CONSTANTS W = 4
          Slip = "none"
INVARIANTS Partial RoundTrip
CHECK_DEADLOCK FALSE
