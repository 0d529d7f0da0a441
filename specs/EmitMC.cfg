SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 50}
  Widths = {1, 2, 3, 4, 8, 16}
INVARIANTS Complete Short Emit
CHECK_DEADLOCK FALSE
