SPECIFICATION MSpec
CONSTANTS
  MaxItems = 2
  MaxMembers = 2
  Deep = TRUE
INVARIANTS Mirror Sorted Emit
CHECK_DEADLOCK FALSE
