SPECIFICATION Spec
CONSTANTS q = 7
 b = 2
 t = 3
 n = 2
 Mode = "ok"
INVARIANTS Exact Bounded
CHECK_DEADLOCK FALSE
