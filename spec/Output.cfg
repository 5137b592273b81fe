SPECIFICATION Spec
CONSTANTS
  Heeds = TRUE
  MaxLines = 4
  Width = 3
  Export = TRUE
INVARIANTS Honest NoFuss Beginning Laws
PROPERTY Ends
