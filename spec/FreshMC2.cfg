SPECIFICATION Spec
CONSTANTS Procs = {1}
          Threads = {1, 2, 3}
          Each = 2
          Source = "os"
          Seeds = {1, 2, 3, 4, 5, 6, 7, 8}
INVARIANTS Distinct Independent
CHECK_DEADLOCK FALSE
