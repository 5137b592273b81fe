SPECIFICATION Spec
CONSTANTS
  Heeds = TRUE
  MaxLines = 6
  Width = 3
  Export = FALSE
INVARIANTS Honest NoFuss Beginning Laws
PROPERTY Ends
