SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 39, 40, 79, 80, 119, 120, 127, 128, 129, 136, 255}
  MaxLen = 3
INVARIANTS Right Agrees Entries
CHECK_DEADLOCK FALSE
