SPECIFICATION Spec
CONSTANTS W = 3
          Slip = "order"
INVARIANTS Partial RoundTrip
CHECK_DEADLOCK FALSE
