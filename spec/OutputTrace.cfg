SPECIFICATION TSpec
INVARIANT Clean
ALIAS Short
CHECK_DEADLOCK FALSE
CONSTANTS
  Heeds = TRUE
  MaxLines = 1
  Width = 1
  Export = FALSE
