SPECIFICATION FSpec
CONSTANTS N = 128
          Moduli = {2, 3, 5, 6, 7, 8}
          V = 3
          Tab = {1}
          Slip = 0
INVARIANT Layout
CHECK_DEADLOCK FALSE
