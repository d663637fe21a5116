SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          Evals = {1}
          Inputs = {1, 2}
          Ops = 1
          ShareScratch = FALSE
          LazyTables = FALSE
          Exclusive = FALSE
INVARIANTS Sequential 
CHECK_DEADLOCK FALSE
