SPECIFICATION Spec
CONSTANTS Moduli = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128}
          Funs = {"rnd", "neg"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
