INIT Init
NEXT Next
VIEW View
CONSTANT Export = TRUE
INVARIANTS OneStore Silent Listed
PROPERTIES Isolated Kept
CHECK_DEADLOCK FALSE
