SPECIFICATION Spec
CONSTANTS Parties = {1, 2, 3}
          Reg = {1, 2, 3, 4}
          Slots = {1, 2, 3}
          Depth = 24
          Kinds = {1, 2, 3, 4, 5, 6, 7, 8, 9}
          Shapes = {0, 1, 2, 3, 4, 5}
INVARIANT Emit
CHECK_DEADLOCK FALSE
