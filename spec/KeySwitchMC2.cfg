SPECIFICATION Spec
CONSTANTS q = 7
 b = 3
 t = 2
 n = 2
 Mode = "ok"
INVARIANTS Exact Bounded
CHECK_DEADLOCK FALSE
