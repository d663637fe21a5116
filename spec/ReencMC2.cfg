SPECIFICATION Spec
CONSTANTS Parties = {1, 2, 3}
 Reg = {1, 2}
 Hops = 2
 Mode = "ok"
INVARIANTS Delegated Moves Sane
CHECK_DEADLOCK FALSE
