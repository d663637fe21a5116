SPECIFICATION Spec
CONSTANTS Tab = {1, 2, 3}
          Depth = 16
          Moduli = {1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17, 31, 32, 33, 64, 100, 128}
          Ks = {1, 2, 3, 4}
          Funs = {"id", "const", "rnd", "neg", "big", "rev"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
