SPECIFICATION Spec
CONSTANTS Parties = {1, 2, 3}
 Reg = {1}
 Hops = 3
 Mode = "stay"
INVARIANTS Moves
CHECK_DEADLOCK FALSE
