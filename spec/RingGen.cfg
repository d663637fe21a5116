SPECIFICATION Spec
CONSTANTS Evs = {1, 2}
          Reg = {1, 2, 3, 4}
          Depth = 24
          Life = 4
          Mod = 4
          Shapes = {0, 1, 2, 3, 5, 7, 10, 13, 14, 17, 20}
INVARIANT Emit
CHECK_DEADLOCK FALSE
