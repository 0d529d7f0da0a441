SPECIFICATION TSpec
INVARIANT OneValue
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
