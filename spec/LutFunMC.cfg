SPECIFICATION FSpec
CONSTANTS N = 32
          Moduli = {1, 2, 3, 4, 5, 6, 7}
          V = 3
          Tab = {1}
          Slip = 0
INVARIANT Layout
CHECK_DEADLOCK FALSE
