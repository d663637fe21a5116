SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANT M = 65536
POSTCONDITION TraceAccepted
