SPECIFICATION MSpec
CONSTANTS
  Builtins = {9, 21}
  MaxDecls = 2
  MaxMembers = 1
  Names = {"s", "a_name_too_long_for_its_column"}
INVARIANTS Wide AllThere Apart Extends_ Emit
CHECK_DEADLOCK FALSE
