SPECIFICATION Spec
CONSTANTS M = 4
          Dim = 1
          Reg = {1, 2, 3}
INVARIANTS TypeOK Homomorphic
