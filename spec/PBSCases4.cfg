SPECIFICATION Spec
CONSTANT Moduli = {4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
