SPECIFICATION TSpec
CONSTANTS M = 65536
          Parties = {1, 2, 3}
          Reg = {1, 2, 3, 4}
          Slots = {1, 2, 3}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
