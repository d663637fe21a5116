SPECIFICATION Spec
CONSTANTS Batches = {1, 2}
          Size = 2
          Copy = FALSE
          MaxEv = 3
INVARIANTS Correct Exclusive PoolFree
CHECK_DEADLOCK FALSE
