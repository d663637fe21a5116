SPECIFICATION Spec
CONSTANTS Owners = {1, 2}
          Depth = 40
          Life = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
