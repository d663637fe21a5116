SPECIFICATION Spec
CONSTANTS Obj = {1, 2, 3}
          MaxCells = 5
          V = 3
          Share = FALSE
          Scratch = TRUE
INVARIANTS Frame
CHECK_DEADLOCK FALSE
