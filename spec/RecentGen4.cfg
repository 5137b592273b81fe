SPECIFICATION Spec
CONSTANTS
  Names = {"main", "topic/a"}
  Depth = 4
  Export = TRUE
CONSTRAINT Bound
INVARIANTS Bounded Exist
PROPERTY Steps
CHECK_DEADLOCK FALSE
