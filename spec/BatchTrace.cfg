SPECIFICATION TSpec
CONSTANTS M = 65536
          Reg = {1, 2, 3, 4}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
