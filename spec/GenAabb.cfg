SPECIFICATION Spec
CONSTANTS G = 2 K = 10 Rand = TRUE
INVARIANTS StaysBox Emit
CHECK_DEADLOCK FALSE
