SPECIFICATION MSpec
CONSTANT
  MaxItems = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InOrder WrongTag Ends
CHECK_DEADLOCK FALSE
