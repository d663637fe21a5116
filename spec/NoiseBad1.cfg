SPECIFICATION Spec
CONSTANTS F = 2
          B = 3
          E = 1
          Margin = 11
          Scale = 2
          Reg = {1, 2, 3}
          Slip = "carry"
INVARIANTS Refreshed Decodable
CHECK_DEADLOCK FALSE
