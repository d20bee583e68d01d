SPECIFICATION Spec
CONSTANTS Stale = FALSE Depth = 3
INVARIANTS MaskInStep Together
CHECK_DEADLOCK FALSE
