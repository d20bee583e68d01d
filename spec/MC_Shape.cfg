SPECIFICATION Spec
CONSTANTS Seeds <- Many
INVARIANT ShapeLaws
CHECK_DEADLOCK FALSE
