SPECIFICATION Spec
CONSTANT Max = 65516
INVARIANT Clean
ALIAS Short
CHECK_DEADLOCK FALSE
