SPECIFICATION TSpec
CONSTANTS Reg = {1, 2, 3, 4}
          Life = 4
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
