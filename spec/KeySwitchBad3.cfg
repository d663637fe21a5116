SPECIFICATION Spec
CONSTANTS q = 6
 b = 2
 t = 2
 n = 2
 Mode = "plus"
INVARIANTS Bounded
CHECK_DEADLOCK FALSE
