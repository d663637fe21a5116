SPECIFICATION BadSpec
CONSTANTS M = 4
          Dim = 1
          Reg = {1, 2}
INVARIANTS TypeOK Homomorphic
