CONSTANTS N = 4 GEN = FALSE
SPECIFICATION Spec
INVARIANT SameAnswer Precondition Complete
CHECK_DEADLOCK FALSE
