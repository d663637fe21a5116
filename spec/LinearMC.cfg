SPECIFICATION Spec
CONSTANTS M = 4
          Dim = 2
          Reg = {1, 2}
INVARIANTS TypeOK Homomorphic
