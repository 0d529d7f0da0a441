SPECIFICATION MSpec
CONSTANTS
  Kinds = {"tag"}
  First = {0}
  Others = {0}
  MaxLen = 2
  Lens = {0}
  Apis2 = {"ptr"}
ACTION_CONSTRAINT Emit
INVARIANTS Canonical PrefixFree Within
CHECK_DEADLOCK FALSE
