SPECIFICATION MSpec
CONSTANTS
  Builtins = {9, 11}
  MaxDecls = 2
  MaxMembers = 1
  Perms = FALSE
INVARIANTS Renumbered Sensitive TermIsEquality OnePass Emit
CHECK_DEADLOCK FALSE
