SPECIFICATION Spec
CONSTANTS Obj = {1, 2, 3}
          MaxCells = 5
          V = 3
          Share = TRUE
          Scratch = FALSE
INVARIANTS Frame
CHECK_DEADLOCK FALSE
