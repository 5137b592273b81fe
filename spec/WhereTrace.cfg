SPECIFICATION TSpec
INVARIANT Clean
ALIAS Short
CHECK_DEADLOCK FALSE
CONSTANT Export = FALSE
