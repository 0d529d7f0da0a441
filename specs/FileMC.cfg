SPECIFICATION Spec
CONSTANTS
  MaxInputs = 3
  MaxSize = 5
  MaxBuf = 3
  CheckClose = TRUE
INVARIANTS Honest Accepts Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
