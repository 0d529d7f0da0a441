SPECIFICATION MSpec
CONSTANTS
  Builtins = {9}
  MaxDecls = 2
  MaxMembers = 1
  Nested = TRUE
  Verify = TRUE
  Lists = {12}
INVARIANTS Preserved Once NothingNew Emit
CHECK_DEADLOCK FALSE
