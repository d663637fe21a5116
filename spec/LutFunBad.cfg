SPECIFICATION FSpec
CONSTANTS N = 32
          Moduli = {1, 2, 3}
          V = 3
          Tab = {1}
          Slip = 3
INVARIANT Layout
CHECK_DEADLOCK FALSE
