SPECIFICATION Spec
CONSTANTS
  Waits = FALSE
  MaxLines = 2
  Cap = 1
  Export = FALSE
INVARIANTS Handed
