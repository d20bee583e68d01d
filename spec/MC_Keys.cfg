SPECIFICATION Spec
CONSTANTS W = {0, 1, 2} Wrong = FALSE
INVARIANTS Refines Canonical
CHECK_DEADLOCK FALSE
