SPECIFICATION TSpec
CONSTANTS M = 65536
          E = 5000
          W = 1200
          Reg = {1, 2, 3, 4, 5}
INVARIANTS Correct
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
