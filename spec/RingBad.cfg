SPECIFICATION Spec
CONSTANTS K = 3
          Life = 4
          Evs = {1}
          Reg = {1}
          MaxOps = 6
          V = 2
INVARIANTS Handles Copies
CHECK_DEADLOCK FALSE
