SPECIFICATION TSpec
CONSTANTS Reg = {1, 2, 3}
          Tab = {1, 2}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
