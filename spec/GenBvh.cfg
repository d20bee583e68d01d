SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxX = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
