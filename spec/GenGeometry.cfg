SPECIFICATION Spec
CONSTANTS N = 12000
INVARIANT Emit
CHECK_DEADLOCK FALSE
