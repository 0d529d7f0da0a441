SPECIFICATION MSpec
CONSTANT
  MaxLen = 5
ACTION_CONSTRAINT Emit
INVARIANTS Exact Counted Back Range
CHECK_DEADLOCK FALSE
