SPECIFICATION Spec
INVARIANT Clean
ACTION_CONSTRAINT Graph
ALIAS Brief
CHECK_DEADLOCK TRUE
