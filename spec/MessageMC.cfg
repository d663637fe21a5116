SPECIFICATION Spec
CONSTANTS M = 256
          Moduli = {1, 2, 3, 4, 5}
          Reg = {1, 2}
          NoiseMax = 2
CONSTRAINT Bound
INVARIANT RoundTrip
