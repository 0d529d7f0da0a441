CONSTANTS
  W = 8
SPECIFICATION Spec
INVARIANTS SumRight SmearRight MaskRight OrderRight Zero
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
