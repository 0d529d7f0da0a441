SPECIFICATION Spec
CONSTANTS
  MaxElems = 3
  MaxDepth = 2
  Raw = 3
  Alphabet = {0, 2, 5, 48, 128, 129, 1, 31}
INVARIANTS Agrees Inside Forest Nested Emit
CHECK_DEADLOCK FALSE
