SPECIFICATION Spec
CONSTANTS Parties = {1, 2, 3}
 Reg = {1}
 Hops = 3
 Mode = "bidir"
INVARIANTS Delegated
CHECK_DEADLOCK FALSE
