SPECIFICATION TSpec
CONSTANT M = 65536
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
