CONSTANTS N = 5 GEN = FALSE
SPECIFICATION Spec
INVARIANT SameAnswer Precondition Complete
CHECK_DEADLOCK FALSE
