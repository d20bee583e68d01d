SPECIFICATION Spec
CONSTANTS G = 1 K = 2 Rand = FALSE
INVARIANTS StaysBox
VIEW View
CHECK_DEADLOCK FALSE
