SPECIFICATION TSpec
INVARIANT Stored
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
