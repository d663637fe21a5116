SPECIFICATION Spec
CONSTANTS Skip = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
