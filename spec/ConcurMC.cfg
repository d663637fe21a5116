SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          Evals = {1, 2, 3}
          Inputs = {1, 2}
          Ops = 2
          ShareScratch = FALSE
          LazyTables = FALSE
          Exclusive = TRUE
INVARIANTS Sequential NoRace
CHECK_DEADLOCK FALSE
