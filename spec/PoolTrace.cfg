SPECIFICATION TSpec
CONSTANT Life = 4
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
