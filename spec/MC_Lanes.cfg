SPECIFICATION Spec
CONSTANT LB = 8
INVARIANTS MadeLaws QuotLaws TextLaws
CHECK_DEADLOCK FALSE
