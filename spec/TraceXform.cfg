SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
CONSTANT One = 16
