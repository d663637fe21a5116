SPECIFICATION Spec
CONSTANTS Depth = 40
          Shapes = {0, 1, 4, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19, 20}
INVARIANT Emit
CHECK_DEADLOCK FALSE
