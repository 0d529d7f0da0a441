SPECIFICATION MSpec
CONSTANTS
  MaxDecl = 3
  MaxName = 2
  Depth = 6
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip Again Prefixes
CHECK_DEADLOCK FALSE
