SPECIFICATION TSpec
INVARIANT Clean
ALIAS Short
CHECK_DEADLOCK FALSE
CONSTANTS
  Waits = TRUE
  MaxLines = 1
  Cap = 1
  Export = FALSE
