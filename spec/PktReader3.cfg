SPECIFICATION Spec
CONSTANTS
  Max = 3
  Packets = 3
  Depth = 4
  Bufs = {0, 1, 2, 3, 4}
  Export = FALSE
CONSTRAINT Bound
INVARIANT Conforms
CHECK_DEADLOCK FALSE
