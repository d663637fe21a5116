SPECIFICATION Spec
CONSTANTS q = 6
 b = 2
 t = 2
 n = 2
 Mode = "trunc"
INVARIANTS Bounded
CHECK_DEADLOCK FALSE
