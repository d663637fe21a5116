SPECIFICATION Spec
CONSTANTS K = 4
          Life = 4
          Evs = {1}
          Reg = {1}
          MaxOps = 8
          V = 2
INVARIANTS Handles Copies
CHECK_DEADLOCK FALSE
