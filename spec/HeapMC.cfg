SPECIFICATION Spec
CONSTANTS Obj = {1, 2, 3}
          MaxCells = 5
          V = 3
          Share = FALSE
          Scratch = FALSE
INVARIANTS Frame Disjoint
CHECK_DEADLOCK FALSE
