SPECIFICATION MSpec
CONSTANTS
  Depth = 5
  MaxDecl = 3
  Texts = {"", "a", "bb", "long"}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS NamesApart NamesFit EmptyShared NullStays
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
