SPECIFICATION Spec
CONSTANTS Reg = {1, 2, 3}
          Depth = 14
          Kinds = {0, 1, 2, 3, 4, 5}
          Mults = {0, 1, 2, 3, 4, 5, 6, 7, 8}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
