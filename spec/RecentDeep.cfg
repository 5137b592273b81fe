SPECIFICATION Spec
CONSTANTS
  Names = {"main", "a", "b"}
  Depth = 5
  Export = FALSE
CONSTRAINT Bound
INVARIANTS Bounded Exist
PROPERTY Steps
CHECK_DEADLOCK FALSE
