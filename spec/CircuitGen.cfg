SPECIFICATION GSpec
CONSTANTS M = 64
          E = 0
          W = 0
          Reg = {1, 2, 3, 4, 5}
          Depth = 20
          Shapes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
INVARIANTS Correct Emit
CHECK_DEADLOCK FALSE
