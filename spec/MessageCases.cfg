SPECIFICATION Spec
CONSTANTS Moduli = {1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 200, 255, 256, 257, 1000, 1024, 4095, 4096, 16384}
          Ks = {1, 2, 3, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
