SPECIFICATION Spec
CONSTANTS Stale = FALSE Depth = 4
INVARIANTS MaskInStep Together
CHECK_DEADLOCK FALSE
