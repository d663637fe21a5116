SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          Evals = {1, 2}
          Inputs = {1, 2}
          Ops = 1
          ShareScratch = FALSE
          LazyTables = TRUE
          Exclusive = TRUE
INVARIANTS Sequential 
CHECK_DEADLOCK FALSE
