SPECIFICATION Spec
CONSTANT Moduli = {1, 2, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
