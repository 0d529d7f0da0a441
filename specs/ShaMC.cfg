SPECIFICATION MSpec
CONSTANTS
  Sizes = {0, 1, 8, 55, 56, 63, 64, 65}
  MaxLen = 200
  NCtx = 1
ACTION_CONSTRAINT Emit
INVARIANT Buffered
CHECK_DEADLOCK FALSE
