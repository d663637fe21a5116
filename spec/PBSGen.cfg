SPECIFICATION Spec
CONSTANTS Reg = {1, 2, 3}
          Tab = {1, 2}
          Depth = 16
          Funs = {"id", "const", "rnd", "neg", "big", "rev", "step", "inc"}
          Shapes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
INVARIANT Emit
CHECK_DEADLOCK FALSE
