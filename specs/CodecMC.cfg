SPECIFICATION MSpec
CONSTANTS
  Kinds = {"tag"}
  Ders = {}
  Shorts = {1}
  Cuts = FALSE
  Coarse = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS EncodesWhatFits RoundTrip NoPartialSuccess
CHECK_DEADLOCK FALSE
