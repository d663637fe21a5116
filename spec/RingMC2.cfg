SPECIFICATION Spec
CONSTANTS K = 4
          Life = 4
          Evs = {1, 2}
          Reg = {1}
          MaxOps = 6
          V = 2
INVARIANTS Handles Copies
CHECK_DEADLOCK FALSE
