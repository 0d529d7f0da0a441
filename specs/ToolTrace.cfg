SPECIFICATION USpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
