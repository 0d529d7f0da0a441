SPECIFICATION RSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
