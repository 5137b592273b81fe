SPECIFICATION Spec
CONSTANTS
  Waits = TRUE
  MaxLines = 2
  Cap = 1
  Export = TRUE
INVARIANTS Handed NotCut Laws
PROPERTY Ends
