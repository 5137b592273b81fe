SPECIFICATION Spec0
INVARIANT Laws
CHECK_DEADLOCK FALSE
