SPECIFICATION MSpec
CONSTANTS
  MaxFields = 2
  Scalars = {2, 5, 7, 9, 11, 14}
  Wraps = FALSE
  Depth = 2
INVARIANTS Sound Placed Overlaid Emit
CHECK_DEADLOCK FALSE
