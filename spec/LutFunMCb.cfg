SPECIFICATION FSpec
CONSTANTS N = 64
          Moduli = {8, 9, 11}
          V = 2
          Tab = {1}
          Slip = 0
INVARIANT Layout
CHECK_DEADLOCK FALSE
