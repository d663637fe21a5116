SPECIFICATION ASpec
CONSTANTS M = 64
          E = 0
          W = 0
          Reg = {1, 2, 3, 4, 5}
          Pairs <- PairsAll
          Triples <- TriplesAll
INVARIANTS Correct Emit
CHECK_DEADLOCK FALSE
