SPECIFICATION CSpec
CONSTANTS M = 64
          E = 0
          W = 0
          Reg = {1, 2, 3, 4, 5}
          Pairs <- PairsPlain
          Triples <- TriplesPlain
INVARIANTS Correct Emit
CHECK_DEADLOCK FALSE
