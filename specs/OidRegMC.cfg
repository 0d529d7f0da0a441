SPECIFICATION Spec
CONSTANTS
  Kinds = {"same"}
  Step = 64
INVARIANTS Exact AllQuestions
CHECK_DEADLOCK FALSE
