SPECIFICATION Spec
CONSTANTS Depth = 30
          Skip = {"newck"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
