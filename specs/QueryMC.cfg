SPECIFICATION MSpec
CONSTANTS
  MaxList = 3
  ListKinds = {1, 5, 7, 10, 11, 12, 17, 18}
INVARIANTS Exactly WalkAgrees Emit
CHECK_DEADLOCK FALSE
