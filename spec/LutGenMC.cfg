SPECIFICATION Spec
CONSTANTS N = 16
          Moduli = {1, 2, 3}
          V = 2
          Tab = {1, 2}
          Slip = 0
INVARIANT Layout
CHECK_DEADLOCK FALSE
