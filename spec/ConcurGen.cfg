SPECIFICATION Spec
CONSTANTS Rounds = 6
          Most = 4
          OpsMost = 3
          Heavy = {"keygen"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
