SPECIFICATION Spec
CONSTANTS W = 3
          Slip = "carry"
INVARIANTS Partial RoundTrip
CHECK_DEADLOCK FALSE
