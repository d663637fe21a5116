SPECIFICATION Spec
CONSTANTS W = 3
          Slip = "keephigh"
INVARIANTS Partial RoundTrip
CHECK_DEADLOCK FALSE
