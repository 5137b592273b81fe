SPECIFICATION Spec
CONSTANTS
  N = 4
  Dates = {1, 2, 3}
INVARIANTS AnswerOk Collected Complete LazyAgrees
CHECK_DEADLOCK FALSE
