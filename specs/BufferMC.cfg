SPECIFICATION MSpec
CONSTANTS
  MaxCap = 3
  Depth = 4
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT ReadBack
PROPERTY AllOrNothing
CHECK_DEADLOCK FALSE
