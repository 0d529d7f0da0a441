SPECIFICATION Spec
CONSTANTS
  ExpBits = 4
  ManBits = 4
  NExp = 3
  NMan = 2
INVARIANTS RealRoundTrip RealMinimal Foreign Refuses VfRoundTrip VfPrefix VfShortest Narrowing
CHECK_DEADLOCK FALSE
