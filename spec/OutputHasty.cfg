SPECIFICATION Spec
CONSTANTS
  Heeds = FALSE
  MaxLines = 4
  Width = 3
  Export = FALSE
INVARIANTS Honest
