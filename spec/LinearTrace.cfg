SPECIFICATION TSpec
CONSTANTS Reg = {1, 2, 3}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
