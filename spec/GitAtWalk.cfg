SPECIFICATION Spec
CONSTANTS
  N = 3
  Dates = {1, 2, 3}
INVARIANTS AnswerOk Collected Complete LazyAgrees
PROPERTY Answered
CHECK_DEADLOCK FALSE
