SPECIFICATION MSpec
CONSTANT
  MaxCap = 4
ACTION_CONSTRAINT Emit
INVARIANTS Total Refuses Bounded NoOverrun
CHECK_DEADLOCK FALSE
