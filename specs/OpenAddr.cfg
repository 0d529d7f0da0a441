SPECIFICATION OSpec
CONSTANTS
  NKeys = 4
  InitSize = 4
  MaxSize = 8
  Depth = 6
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Agrees NoDuplicates Counted HalfLoad
CHECK_DEADLOCK FALSE
