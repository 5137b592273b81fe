SPECIFICATION Spec
INVARIANT Clean
ALIAS Short
CHECK_DEADLOCK FALSE
