SPECIFICATION MSpec
CONSTANTS
  Wide = FALSE
INVARIANTS Exact NeverBeyond Terminated Emit
CHECK_DEADLOCK FALSE
