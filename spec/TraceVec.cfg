SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
CONSTANT LB = 8
