SPECIFICATION TSpec
INVARIANT CursorType
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
