SPECIFICATION Spec
CONSTANTS F = 2
          B = 3
          E = 1
          Margin = 10
          Scale = 2
          Reg = {1, 2, 3}
          Slip = ""
INVARIANTS Decodable
CHECK_DEADLOCK FALSE
