SPECIFICATION Spec
CONSTANTS Parties = {1, 2, 3}
 Reg = {1}
 Hops = 3
 Mode = "ok"
INVARIANTS Delegated Moves Sane
CHECK_DEADLOCK FALSE
