SPECIFICATION Spec
CONSTANTS Rounds = 4
          Most = 4
          OpsMost = 3
          Heavy = {"keygen", "ckgen", "pkgen", "rkgen"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
