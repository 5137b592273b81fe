SPECIFICATION Spec
CONSTANTS
  Waits = TRUE
  MaxLines = 4
  Cap = 2
  Export = FALSE
INVARIANTS Handed NotCut Laws
PROPERTY Ends
