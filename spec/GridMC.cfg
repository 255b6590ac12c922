CONSTANT M = 7
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
