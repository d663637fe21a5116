SPECIFICATION FSpec
CONSTANTS M = 4096
          Moduli = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31}
          Reg = {1}
          NoiseMax = 0
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
