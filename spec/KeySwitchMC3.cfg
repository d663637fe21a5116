SPECIFICATION Spec
CONSTANTS q = 10
 b = 3
 t = 3
 n = 2
 Mode = "ok"
INVARIANTS Exact Bounded
CHECK_DEADLOCK FALSE
